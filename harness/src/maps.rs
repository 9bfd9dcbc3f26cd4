//! C15 (menu search), C21 (recency map), C22 (short names)

use crate::gen;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use ced::editor::menu::{Candidates, MenuFilter, Token};
use ced::editor::{Buffer, BufferSource};
use ced::stackmap::StackMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::{Component, Path, PathBuf};

// ------------------------------------------------------------------------ C15

pub struct C15;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SearchCase {
    pub search: String,
    pub labels: Vec<String>,
    pub order: Vec<u16>,
}

/// case folding of the characters the generators use
pub fn fold(c: char) -> char {
    match c {
        'A'..='Z' => c.to_ascii_lowercase(),
        'É' => 'é',
        'Я' => 'я',
        'Ω' | '\u{2126}' => 'ω',
        'Σ' | 'ς' => 'σ',
        '\u{212a}' => 'k',
        'ſ' => 's',
        'ẞ' => 'ß',
        c => c,
    }
}

fn folded(s: &str) -> Vec<char> {
    s.chars().map(fold).collect()
}

fn find_from(hay: &[char], word: &[char], from: usize) -> Option<usize> {
    (from..=hay.len().checked_sub(word.len())?).find(|&i| hay[i..i + word.len()] == *word)
}

/// whether the words appear in order, without overlap
pub fn in_order(label: &str, words: &[String]) -> bool {
    let hay = folded(label);
    let mut at = 0;
    for w in words {
        let w = folded(w);
        match find_from(&hay, &w, at) {
            Some(i) => at = i + w.len(),
            None => return false,
        }
    }
    true
}

const META: &[&str] = &[
    "a", "b", "A", "B", "k", "s", "x", "1", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "^", "$", "|", "\\", "/",
    "-", "_", "#", "&", "~", "\\d", "\\", ".*", "[a-z]", "(?i)", "a|b", "é", "É", "я", "Я", "ω", "Ω", "ß", "ẞ", "🦊",
    "\u{301}", "ſ", "\u{212a}", "σ", "ς", "Σ",
];

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[abAB]{1,3}",
        2 => prop::collection::vec(prop::sample::select(META.to_vec()), 1..4).prop_map(|v| v.concat()),
        1 => prop::sample::select(META.to_vec()).prop_map(String::from),
    ]
    .boxed()
}

fn search() -> BoxedStrategy<String> {
    let sep = prop::sample::select(vec![" ", "  ", "\t", "\n", "\u{a0}", " \u{3000}"]);
    prop_oneof![
        1 => prop::sample::select(vec!["", " ", "\t\n"]).prop_map(String::from),
        8 => (prop::collection::vec((word(), sep), 1..4), any::<u8>()).prop_map(|(v, b)| {
            let mut s = String::new();
            if b & 1 != 0 { s.push(' '); }
            let n = v.len();
            for (i, (w, p)) in v.into_iter().enumerate() {
                s += &w;
                if i + 1 < n || b & 2 != 0 { s += p; }
            }
            s
        }),
    ]
    .boxed()
}

fn label() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[abABks/. ]{0,8}",
        3 => prop::collection::vec(prop_oneof![
                3 => prop::sample::select(META.to_vec()),
                1 => prop::sample::select(vec![" ", "\n", "\t", "/"]),
            ], 0..8).prop_map(|v| v.concat()),
    ]
    .boxed()
}

type Kept = Vec<(String, Vec<Token>)>;

fn kept(c: &Candidates<String>) -> Kept {
    c.iter().filter(|c| c.is_match()).map(|c| (c.object.clone(), c.tokenize())).collect()
}

/// the marked fragments of an entry and the extent they cover, in bytes
pub fn extent(tokens: &[(String, bool)]) -> Option<usize> {
    let mut at = 0;
    let mut span: Option<(usize, usize)> = None;
    for (t, m) in tokens {
        if *m {
            span = Some((span.map_or(at, |s| s.0), at + t.len()));
        }
        at += t.len();
    }
    span.map(|(a, b)| b - a)
}

/// checks the entries kept by a search against the candidates
pub fn check_search(search: &str, labels: &[String], got: &[(String, Vec<(String, bool)>)], cov: &mut Cov) -> Res {
    let words: Vec<String> = search.split_whitespace().map(String::from).collect();
    let mut want: Vec<&String> = labels.iter().filter(|l| in_order(l, &words)).collect();
    want.sort();
    let mut have: Vec<&String> = got.iter().map(|(l, _)| l).collect();
    have.sort();
    ensure_eq!(have, want, "entries kept", "entries kept by {:?}", search);
    cov.mark_if(!words.is_empty() && !want.is_empty() && want.len() < labels.len(), "some kept, some not");
    cov.hit_if(words.is_empty(), "empty search");
    for (l, tokens) in got {
        let all: String = tokens.iter().map(|(t, _)| t.as_str()).collect();
        ensure_eq!(all, *l, "fragments", "fragments of an entry for {:?}", search);
        let marks: Vec<Vec<char>> = tokens.iter().filter(|(_, m)| *m).map(|(t, _)| folded(t)).collect();
        let words: Vec<Vec<char>> = words.iter().map(|w| folded(w)).collect();
        ensure_eq!(marks, words, "marks", "marked fragments of {:?} for {:?}", l, search);
        cov.hit_if(words.len() > 1, "several words marked");
    }
    let keys: Vec<(usize, &String)> = got.iter().map(|(l, t)| (extent(t).unwrap_or(0), l)).collect();
    for w in keys.windows(2) {
        ensure!(w[0] <= w[1], "order", "order of the entries for {:?}: {:?}", search, keys);
        cov.hit_if(w[0].0 == w[1].0, "tie");
    }
    Ok(())
}

fn plain(k: &Kept) -> Vec<(String, Vec<(String, bool)>)> {
    k.iter()
        .map(|(l, t)| (l.clone(), t.iter().map(|t| (t.text.clone(), t.is_match)).collect()))
        .collect()
}

impl Prop for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "searches of 0 to 3 words and up to 12 (rarely 130) candidate labels over an alphabet of case variants, every regular-expression metacharacter, multi-byte characters, blanks and newlines, plus a random permutation of the candidates and, rarely, very long searches. Oracle: an independent in-order, case-folded search; fragments concatenated and compared; order recomputed from the marked extents; permutation invariance. Non-trivial: a non-empty search that keeps some candidates and drops others.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the shortest span is that of the occurrences the entry marks",
        "case folding is decided on the characters of the generators only",
        "searches have at most 100 words (the cost of a search grows with the square of their number)",
    ];
    type Case = SearchCase;
    fn cases(tier: Tier) -> u64 {
        tier.pick(100_000, 2_000_000)
    }
    fn strategy(_tier: Tier) -> BoxedStrategy<SearchCase> {
        (search(), gen::few(label(), 0..12, 20..130), prop::collection::vec(any::<u16>(), 12), any::<u16>())
            .prop_map(|(search, mut labels, order, glue)| {
                // labels made of the words themselves, so that matches are common
                if glue & 3 != 0 {
                    let words: Vec<&str> = search.split_whitespace().collect();
                    let n = labels.len();
                    for (i, l) in labels.iter_mut().enumerate().take(n / 2) {
                        let mut s = String::new();
                        // some with the words far from one another
                        let far = if glue >> 13 == 7 { 3 + (glue as usize >> 4) % 40 + 7 * i } else { 1 };
                        let between = l.repeat(far);
                        for (j, w) in words.iter().enumerate() {
                            let up = (glue as usize >> ((i + j) % 12 + 4)) & 1 != 0;
                            s += if (glue as usize >> (j % 8)) & 1 != 0 { between.as_str() } else { "" };
                            s += &if up { w.to_ascii_uppercase() } else { w.to_string() };
                        }
                        // some with a long head or tail that no word matches
                        if glue >> 12 == 12 + (i as u16 & 1) {
                            let pad = ["_", "é/", "a ", "🦊"][i % 4].repeat(50 + 61 * (i + glue as usize % 23));
                            s = if glue & 4 != 0 { pad + &s } else { s + &pad };
                        }
                        *l = s;
                    }
                }
                SearchCase { search, labels, order }
            })
            .boxed()
    }
    fn fixed(_tier: Tier) -> Vec<SearchCase> {
        let mut v = Vec::new();
        for (w, n) in [("a", 20_000), ("é", 5_000), ("a ", 100), (".*", 5_000), ("🦊 ", 100), ("k", 60_000)] {
            let search = w.repeat(n);
            let mut labels = vec!["a".repeat(100)];
            // the cost of the longest would come close to the limit
            labels.extend(if n < 10_000 { vec![search.clone(), search.replace(' ', "")] } else { vec![] });
            v.push(SearchCase { labels, search, order: vec![] });
        }
        v
    }
    fn check(case: &SearchCase, cov: &mut Cov) -> Res {
        let got = kept(&MenuFilter::new(&case.search).filter(&case.labels));
        check_search(&case.search, &case.labels, &plain(&got), cov)?;
        let mut idx: Vec<usize> = (0..case.labels.len()).collect();
        idx.sort_by_key(|&i| case.order.get(i % 12).map_or(0, |o| o.wrapping_mul(1 + (i / 12) as u16)));
        let shuffled: Vec<String> = idx.iter().map(|&i| case.labels[i].clone()).collect();
        let again = kept(&MenuFilter::new(&case.search).filter(&shuffled));
        ensure_eq!(plain(&again), plain(&got), "candidate order", "entries of the permuted candidates");
        Ok(())
    }
}

// ------------------------------------------------------------------------ C21

pub struct C21;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum MapOp {
    Insert(u8, u16),
    Remove(u8),
    SetLast(u8),
    /// change a value in place
    Set(u8, u16),
    /// change all values in place
    Bump,
}

impl Prop for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "sequences of up to 60 (thorough: 400) insertions, replacements, removals, promotions and in-place changes over 1 to 6 keys (integer and string keys alike). Oracle: an ordered association list. After each operation the returned value, the latest key and value, the length, and every key and value are compared. Non-trivial: a removal of the latest key, or a promotion or replacement of another one.";
    type Case = (u8, Vec<MapOp>);
    fn cases(tier: Tier) -> u64 {
        tier.pick(160_000, 2_000_000)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<(u8, Vec<MapOp>)> {
        let k = || 0u8..6;
        let op = prop_oneof![
            5 => (k(), any::<u16>()).prop_map(|(a, b)| MapOp::Insert(a, b)),
            4 => k().prop_map(MapOp::Remove),
            4 => k().prop_map(MapOp::SetLast),
            1 => (k(), any::<u16>()).prop_map(|(a, b)| MapOp::Set(a, b)),
            1 => Just(MapOp::Bump),
        ];
        (1u8..7, prop::collection::vec(op, 0..tier.pick(60, 400))).boxed()
    }
    fn check(case: &(u8, Vec<MapOp>), cov: &mut Cov) -> Res {
        run_map(case, cov, |k| k as usize)?;
        run_map(case, &mut Cov::default(), |k| "k".repeat(k as usize))
    }
}

fn run_map<K, F>(case: &(u8, Vec<MapOp>), cov: &mut Cov, mk: F) -> Res
where
    K: Clone + Eq + std::hash::Hash + std::fmt::Debug + Ord,
    F: Fn(u8) -> K,
{
    let mut map: StackMap<K, u16> = StackMap::new();
    let mut model: Vec<(K, u16)> = Vec::new(); // most recent first
    for op in &case.1 {
        let place = |model: &Vec<(K, u16)>, k: &K| model.iter().position(|(x, _)| x == k);
        match op {
            MapOp::Insert(k, v) => {
                let k = mk(k % case.0);
                let old = map.insert(k.clone(), *v);
                let at = place(&model, &k);
                cov.mark_if(at.map_or(false, |i| i > 0), "replacement of an older key");
                let want = at.map(|i| model.remove(i).1);
                model.insert(0, (k.clone(), *v));
                ensure_eq!(old, want, "insert", "value replaced by inserting {:?}", k);
            }
            MapOp::Remove(k) => {
                let k = mk(k % case.0);
                let got = map.remove(&k);
                let at = place(&model, &k);
                cov.mark_if(at == Some(0) && model.len() > 1, "removal of the latest key");
                let want = at.map(|i| model.remove(i).1);
                ensure_eq!(got, want, "remove", "value removed with {:?}", k);
            }
            MapOp::SetLast(k) => {
                let k = mk(k % case.0);
                let got = map.set_last(k.clone()).is_ok();
                let at = place(&model, &k);
                cov.mark_if(at.map_or(false, |i| i > 0), "promotion of an older key");
                cov.hit_if(at.is_none(), "promotion of an absent key");
                ensure_eq!(got, at.is_some(), "promote", "promotion of {:?} accepted", k);
                if let Some(i) = at {
                    let e = model.remove(i);
                    model.insert(0, e);
                }
            }
            MapOp::Set(k, v) => {
                let k = mk(k % case.0);
                let at = place(&model, &k);
                match (map.get_mut(&k), at) {
                    (Some(x), Some(i)) => {
                        *x = *v;
                        model[i].1 = *v;
                    }
                    (None, None) => {}
                    (a, b) => {
                        return Err(Fail::new("get_mut", format!("entry {:?}: {:?}, expected {:?}", k, a, b)))
                    }
                }
            }
            MapOp::Bump => {
                for (_, v) in map.iter_mut() {
                    *v = v.wrapping_add(1);
                }
                for (_, v) in model.iter_mut() {
                    *v = v.wrapping_add(1);
                }
            }
        }
        ensure_eq!(map.latest(), model.first().map(|e| &e.0), "latest", "latest key after {:?}", op);
        ensure_eq!(map.latest_value(), model.first().map(|e| &e.1), "latest", "latest value after {:?}", op);
        ensure_eq!(map.len(), model.len(), "len", "length after {:?}", op);
        ensure_eq!(map.is_empty(), model.is_empty(), "len", "emptiness after {:?}", op);
        let mut got: Vec<(K, u16)> = map.iter().map(|(k, v)| (k.clone(), *v)).collect();
        got.sort();
        let mut want = model.clone();
        want.sort();
        ensure_eq!(got, want, "entries", "entries after {:?}", op);
        for (k, v) in &model {
            ensure_eq!(map.get(k), Some(v), "entries", "value of {:?} after {:?}", k, op);
            ensure!(map.contains_key(k), "entries", "{:?} missing after {:?}", k, op);
        }
    }
    // emptying the map from the latest key shows the whole order
    while let Some((k, v)) = model.first().cloned() {
        ensure_eq!(map.latest().cloned(), Some(k.clone()), "latest", "latest key while emptying");
        ensure_eq!(map.remove(&k), Some(v), "remove", "value removed while emptying");
        model.remove(0);
    }
    ensure!(map.latest().is_none() && map.is_empty(), "latest", "a key left in an empty map");
    Ok(())
}

// ------------------------------------------------------------------------ C22

pub struct C22;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct NamesCase {
    pub files: Vec<String>,
    pub scratch: Vec<String>,
}

fn comps(p: &Path) -> Vec<String> {
    p.components()
        .filter(|c| !matches!(c, Component::RootDir))
        .map(|c| c.as_os_str().to_string_lossy().into_owned())
        .collect()
}

fn is_suffix(short: &[String], long: &[String]) -> bool {
    short.len() <= long.len() && long[long.len() - short.len()..] == *short
}

impl Prop for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "sets of up to 8 (rarely 40) distinct file paths of up to 5 (rarely 14) components over few component names (so that suffixes are shared, one path can be a suffix of another, components repeat) mixed with scratch buffers, some having the same names. Oracle: the shortest suffix of whole components that is a suffix of no other path (the whole path if there is none), computed by comparing component lists. Non-trivial: two paths share their last component.";
    const ASSUMPTIONS: &'static [&'static str] = &["the opened files are distinct normalised absolute or relative paths"];
    type Case = NamesCase;
    fn cases(tier: Tier) -> u64 {
        tier.pick(160_000, 2_000_000)
    }
    fn strategy(_tier: Tier) -> BoxedStrategy<NamesCase> {
        let comp = prop_oneof![
            6 => prop::sample::select(vec!["a", "b", "c"]),
            2 => prop::sample::select(vec!["é", "a.b", "*debug*", "a b", "🦊", "..."]),
        ];
        let path = (prop::bool::weighted(0.9), gen::few(comp, 1..6, 6..14))
            .prop_map(|(abs, v)| format!("{}{}", if abs { "/" } else { "" }, v.join("/")));
        let above = prop::option::weighted(0.2, prop::sample::select(vec!["/x", "/a", "/x/y"]));
        (
            gen::few((path, above), 1..9, 12..40).prop_map(|v| {
                // some are an earlier one under another directory
                let mut files: Vec<String> = Vec::new();
                for (path, above) in v {
                    files.push(match (above, files.last()) {
                        (Some(d), Some(last)) => format!("{}/{}", d, last.trim_start_matches('/')),
                        _ => path,
                    });
                }
                files
            }),
            prop::collection::vec(prop::sample::select(vec!["*debug*", "a", "b/c", "", "é"]).prop_map(String::from), 0..4),
        )
            .prop_map(|(files, scratch)| NamesCase { files, scratch })
            .boxed()
    }
    fn check(case: &NamesCase, cov: &mut Cov) -> Res {
        let mut files: Vec<PathBuf> = Vec::new();
        for f in &case.files {
            let p = PathBuf::from(f);
            if !files.contains(&p) {
                files.push(p);
            }
        }
        let mut scratch = case.scratch.clone();
        scratch.sort();
        scratch.dedup();
        let mut buffers: Vec<Buffer> = Vec::new();
        let mut sources: Vec<BufferSource> = Vec::new();
        // interleaved, so that positions in the list of sources differ
        let (mut i, mut j) = (0, 0);
        while i < files.len() || j < scratch.len() {
            if j < scratch.len() && (i + j) % 2 == 0 || i == files.len() {
                sources.push(BufferSource::Scratch(scratch[j].clone()));
                buffers.push(Buffer::new_scratch(scratch[j].clone(), String::new()));
                j += 1;
            } else {
                sources.push(BufferSource::File(files[i].clone()));
                let mut b = Buffer::new_scratch("x".into(), String::new());
                b.source = BufferSource::File(files[i].clone());
                buffers.push(b);
                i += 1;
            }
        }
        let lists: HashMap<&PathBuf, Vec<String>> = files.iter().map(|p| (p, comps(p))).collect();
        for b in &buffers {
            let name = b.shortest_name(&sources);
            match &b.source {
                BufferSource::Scratch(n) => ensure_eq!(name, *n, "scratch name", "short name of a scratch buffer"),
                BufferSource::File(p) => {
                    let own = &lists[p];
                    let others: Vec<&Vec<String>> = files.iter().filter(|q| *q != p).map(|q| &lists[q]).collect();
                    let shared = others.iter().any(|o| o.last() == own.last());
                    cov.mark_if(shared, "shared last component");
                    let k = (1..=own.len()).find(|&k| {
                        let s = &own[own.len() - k..];
                        !others.iter().any(|o| is_suffix(s, o))
                    });
                    match k {
                        Some(k) => {
                            let got = comps(Path::new(&name));
                            ensure_eq!(got, own[own.len() - k..].to_vec(), "short name", "short name {:?} of {:?} among {:?}", name, p, files);
                            cov.hit_if(k > 2, "three components or more");
                        }
                        None => {
                            cov.hit("suffix of another path");
                            ensure_eq!(name, p.display().to_string(), "short name", "name of {:?}, a suffix of another of {:?}", p, files);
                        }
                    }
                    ensure!(p.ends_with(&name), "short name", "{:?} is not a suffix of {:?}", name, p);
                }
            }
        }
        Ok(())
    }
}
