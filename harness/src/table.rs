//! C01, C02, C03: the content of a buffer against a plain string.

use crate::engine::*;
use crate::gen;
use crate::text::Doc;
use crate::{ensure, ensure_eq};
use ced::editor::{Buffer, Coords};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Append(String),
    Insert(At, String),
    Delete(At, At),
    /// delete exactly what an earlier insertion put there, when it still is there
    DeleteInserted(u16),
    DeleteAll,
    Replace(At, At, String),
    /// whole-text update to an unrelated text
    Update(String),
    /// whole-text update to the current text with one part changed
    UpdatePart(At, At, String),
    Undo,
    Redo,
}

/// A position in the text: a fraction of it, or one used by an earlier operation.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum At {
    Frac(u16),
    Known(u16),
    Start,
    End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub init: String,
    pub ops: Vec<Op>,
    pub probe: u16,
}

fn at() -> BoxedStrategy<At> {
    prop_oneof![
        5 => any::<u16>().prop_map(At::Frac),
        5 => any::<u16>().prop_map(At::Known),
        1 => Just(At::Start),
        1 => Just(At::End),
    ]
    .boxed()
}

fn ops(undo: bool, bigger: usize) -> BoxedStrategy<Op> {
    let small = prop_oneof![6 => gen::text(5), 2 => gen::text(12), 1 => Just(String::new()), 1 => gen::ascii(bigger)];
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (3, small.clone().prop_map(Op::Append).boxed()),
        (8, (at(), small.clone()).prop_map(|(a, t)| Op::Insert(a, t)).boxed()),
        (8, (at(), at()).prop_map(|(a, b)| Op::Delete(a, b)).boxed()),
        (4, any::<u16>().prop_map(Op::DeleteInserted).boxed()),
        (1, Just(Op::DeleteAll).boxed()),
        (4, (at(), at(), small.clone()).prop_map(|(a, b, t)| Op::Replace(a, b, t)).boxed()),
        (2, gen::mixed(14).prop_map(Op::Update).boxed()),
        (2, (at(), at(), small).prop_map(|(a, b, t)| Op::UpdatePart(a, b, t)).boxed()),
    ];
    if undo {
        v.push((8, Just(Op::Undo).boxed()));
        v.push((6, Just(Op::Redo).boxed()));
    }
    prop::strategy::Union::new_weighted(v).boxed()
}

fn cases(undo: bool, long: bool, tier: Tier) -> BoxedStrategy<Case> {
    let n = tier.pick(24, 60);
    (
        gen::mixed(16),
        prop_oneof![
            900 => prop::collection::vec(ops(undo, 8), 1..n),
            300 => prop::collection::vec(ops(undo, 30), 1..6),
            6 => prop::collection::vec(ops(undo, 8), 60..160),
            // something very long among a few edits
            6 => (prop::collection::vec(ops(undo, 8), 0..6), if long { gen::huge() } else { gen::big() }, at(), at(), 0u8..4, prop::collection::vec(ops(undo, 8), 0..8))
                .prop_map(|(mut v, t, a, b, k, rest)| {
                    v.push(match k {
                        0 => Op::Append(t),
                        1 => Op::Insert(a, t),
                        2 => Op::Replace(a, b, t),
                        _ => Op::UpdatePart(a, b, t),
                    });
                    v.extend(rest);
                    v
                }),
            // many groups of edits
            6 => prop::collection::vec((at(), at(), gen::text(4)), 20..80).prop_map(|v| {
                v.into_iter().flat_map(|(a, b, t)| vec![Op::Insert(a, t), Op::Delete(a, b)]).collect()
            }),
            // hundreds of them
            1 => prop::collection::vec((at(), at(), gen::text(2)), 130..600).prop_map(|v| {
                v.into_iter().flat_map(|(a, b, t)| vec![Op::Insert(a, t), Op::Delete(a, b)]).collect()
            }),
        ],
        any::<u16>(),
    )
        .prop_map(|(init, ops, probe)| Case { init, ops, probe })
        .boxed()
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Insert,
    Delete,
}

/// the plain-string model with its history
struct Model {
    text: String,
    known: Vec<usize>,
    inserted: Vec<(usize, String)>,
    undos: Vec<String>,
    redos: Vec<String>,
    last: Option<Kind>,
}

impl Model {
    fn new(text: &str) -> Model {
        Model {
            text: text.to_owned(),
            known: vec![0],
            inserted: Vec::new(),
            undos: Vec::new(),
            redos: Vec::new(),
            last: None,
        }
    }
    fn at(&self, a: At) -> usize {
        match a {
            At::Frac(f) => gen::boundary(&self.text, f),
            At::Known(i) => {
                let o = self.known[(i as usize * self.known.len()) >> 16];
                if o <= self.text.len() && self.text.is_char_boundary(o) {
                    o
                } else {
                    gen::boundary(&self.text, i)
                }
            }
            At::Start => 0,
            At::End => self.text.len(),
        }
    }
    fn range(&self, a: At, b: At) -> (usize, usize) {
        let (a, b) = (self.at(a), self.at(b));
        (a.min(b), a.max(b))
    }
    fn save(&mut self) {
        self.undos.push(self.text.clone());
        self.redos.clear();
        self.last = None;
    }
    fn edit(&mut self, k: Kind) {
        if self.last != Some(k) {
            self.save();
            self.last = Some(k);
        }
    }
    fn insert(&mut self, o: usize, t: &str) {
        if t.is_empty() {
            return;
        }
        self.edit(Kind::Insert);
        self.text.insert_str(o, t);
        self.inserted.push((o, t.to_owned()));
        self.note(o);
        self.note(o + t.len());
    }
    fn delete(&mut self, a: usize, b: usize) {
        if a == b {
            return;
        }
        self.edit(Kind::Delete);
        self.text.replace_range(a..b, "");
        self.note(a);
    }
    fn group(&mut self, text: String) {
        self.save();
        self.text = text;
        self.last = None;
    }
    fn note(&mut self, o: usize) {
        self.known.push(o);
        if self.known.len() > 12 {
            self.known.remove(0);
        }
    }
    fn undo(&mut self) -> bool {
        match self.undos.pop() {
            Some(t) => {
                self.last = None;
                self.redos.push(std::mem::replace(&mut self.text, t));
                true
            }
            None => false,
        }
    }
    fn redo(&mut self) -> bool {
        match self.redos.pop() {
            Some(t) => {
                self.last = None;
                self.undos.push(std::mem::replace(&mut self.text, t));
                true
            }
            None => false,
        }
    }
}

/// Applies one operation to the buffer and to the model.
fn step(b: &mut Buffer, m: &mut Model, op: &Op, cov: &mut Cov) -> Res {
    match op {
        Op::Append(t) => {
            cov.hit_if(t.is_empty(), "empty text appended");
            b.content.append(t.clone());
            let o = m.text.len();
            m.insert(o, t);
        }
        Op::Insert(a, t) => {
            let o = m.at(*a);
            cov.hit_if(t.is_empty(), "empty text inserted");
            cov.hit_if(o > 0 && o < m.text.len(), "insertion inside the text");
            b.content.insert(o, t.clone());
            m.insert(o, t);
        }
        Op::Delete(x, y) => {
            let (x, y) = m.range(*x, *y);
            cov.hit_if(x == y, "empty deletion");
            b.content.delete(&(x..y));
            m.delete(x, y);
        }
        Op::DeleteInserted(i) => {
            if m.inserted.is_empty() {
                return Ok(());
            }
            let k = (*i as usize * m.inserted.len()) >> 16;
            let (o, t) = m.inserted[k].clone();
            if m.text.is_char_boundary(o) && m.text[o..].starts_with(&t) {
                cov.hit("deletion of exactly an earlier insertion");
                b.content.delete(&(o..o + t.len()));
                m.delete(o, o + t.len());
            }
        }
        Op::DeleteAll => {
            let n = m.text.len();
            b.content.delete(&(0..n));
            m.delete(0, n);
        }
        Op::Replace(x, y, t) => {
            let (x, y) = m.range(*x, *y);
            let mut new = m.text.clone();
            new.replace_range(x..y, t);
            #[cfg(ced_verif)]
            b.content.verif_replace(x, y - x, t.clone());
            #[cfg(not(ced_verif))]
            {
                b.content.delete(&(x..y));
                b.content.insert(x, t.clone());
            }
            m.group(new);
            m.note(x);
        }
        Op::Update(t) => {
            cov.hit("whole-text update");
            b.content.apply_diff(t);
            m.group(t.clone());
        }
        Op::UpdatePart(x, y, t) => {
            let (x, y) = m.range(*x, *y);
            let mut new = m.text.clone();
            new.replace_range(x..y, t);
            cov.hit("whole-text update of one part");
            b.content.apply_diff(&new);
            m.group(new);
            m.note(x);
        }
        Op::Undo => {
            #[cfg(ced_verif)]
            {
                let did = b.content.verif_undo();
                let want = m.undo();
                ensure_eq!(did, want, "undo result", "undo said whether it undid");
                cov.hit_if(did, "undo done");
            }
        }
        Op::Redo => {
            #[cfg(ced_verif)]
            {
                let did = b.content.verif_redo();
                let want = m.redo();
                ensure_eq!(did, want, "redo result", "redo said whether it redid");
                cov.hit_if(did, "redo done");
            }
        }
    }
    Ok(())
}

fn fresh(case: &Case) -> (Buffer, Model) {
    let mut b = Buffer::new_scratch("b".into(), case.init.clone());
    let m = if case.init.is_empty() {
        // a buffer is never created empty: start from an emptied one
        b.content = Default::default();
        Model::new("")
    } else {
        Model::new(&case.init)
    };
    (b, m)
}

fn check_text(b: &Buffer, m: &Model, probe: u16) -> Res {
    let c = &b.content;
    ensure_eq!(c.text(), m.text, "text", "text");
    ensure_eq!(c.len(), m.text.len(), "length", "length");
    ensure_eq!(c.is_empty(), m.text.is_empty(), "is_empty", "is_empty");
    let n = m.text.len();
    ensure_eq!(c.max_offset(), n.saturating_sub(1), "max offset", "last offset");
    if n > 0 {
        for (i, j) in [(0u16, 1u16), (1, 0), (3, 7), (11, 5)] {
            let x = gen::boundary(&m.text, probe.wrapping_mul(i * 7 + 1));
            let y = gen::boundary(&m.text, probe.wrapping_mul(j * 13 + 3));
            let (x, y) = (x.min(y), x.max(y));
            let got = c.text_range(&(x..y));
            if x == y {
                ensure!(
                    got.as_deref().unwrap_or("") == "",
                    "empty range",
                    "text of empty range at {}: {:?}",
                    x,
                    got
                );
            } else {
                ensure_eq!(got.as_deref(), Some(&m.text[x..y]), "range", "text of range {}..{}", x, y);
            }
        }
    }
    Ok(())
}

fn check_all_ranges(b: &Buffer, m: &Model) -> Res {
    let bounds: Vec<usize> = m
        .text
        .char_indices()
        .map(|(i, _)| i)
        .chain(std::iter::once(m.text.len()))
        .collect();
    if bounds.len() > 40 {
        return Ok(());
    }
    for (i, &x) in bounds.iter().enumerate() {
        for &y in &bounds[i + 1..] {
            let got = b.content.text_range(&(x..y));
            ensure_eq!(got.as_deref(), Some(&m.text[x..y]), "range", "text of range {}..{}", x, y);
        }
    }
    Ok(())
}

fn co(l: usize, c: usize) -> Coords {
    Coords { l, c }
}

/// all of the line structure and coordinates
fn check_lines(b: &Buffer, m: &Model, cov: &mut Cov, full: bool) -> Res {
    let c = &b.content;
    let doc = Doc::new(&m.text);
    ensure_eq!(c.line_count(), doc.lines.len(), "line count", "line count of {:?}", m.text);
    ensure_eq!(b.line_count(), doc.lines.len(), "line count", "buffer line count");
    let want: Vec<String> = m.text.lines().map(String::from).collect();
    ensure_eq!(c.lines(), want, "lines", "lines");
    let mut longest = 0;
    for (i, l) in doc.lines.iter().enumerate() {
        let got = c.line_text(i + 1).unwrap_or_default();
        ensure_eq!(got, l.text, "line text", "text of line {} of {:?}", i + 1, m.text);
        if !m.text.is_empty() {
            ensure_eq!(c.line_length(i + 1), l.width, "line length", "length of line {} of {:?}", i + 1, m.text);
            longest = longest.max(l.width);
        }
    }
    if !m.text.is_empty() {
        let (n, len) = c.longest_line();
        ensure_eq!(len, longest, "longest line", "length of the longest line of {:?}", m.text);
        ensure!(
            len == 0 || (n >= 1 && n <= doc.lines.len() && doc.lines[n - 1].width == len),
            "longest line",
            "longest line of {:?} is said to be {}",
            m.text,
            n
        );
    }
    for n in [0, doc.lines.len() + 1, doc.lines.len() + 7] {
        ensure_eq!(c.line_text(n), None, "line text out of range", "text of line {} of {:?}", n, m.text);
    }
    let multi = m.text.len() != m.text.chars().count();
    cov.hit_if(multi, "multi-byte text");
    cov.hit_if(doc.lines.iter().any(|l| l.width == 0), "empty line");
    if m.text.is_empty() {
        return Ok(());
    }
    // every offset, also inside a character: the position holding it
    // (some of them in a big text)
    let step = 1 + m.text.len() / 150;
    for o in (0..m.text.len()).step_by(step) {
        let p = doc.at(o).unwrap();
        let got = c.offset_to_coord(o);
        ensure_eq!(got, Some(co(p.line, p.col)), "offset to coordinates", "coordinates of offset {} of {:?}", o, m.text);
    }
    for o in [m.text.len(), m.text.len() + 3] {
        ensure_eq!(c.offset_to_coord(o), None, "offset out of range", "coordinates of offset {} past {:?}", o, m.text);
    }
    for p in doc.pos.iter().step_by(1 + doc.pos.len() / 150) {
        let got = c.coord_to_offset(co(p.line, p.col));
        ensure_eq!(got, Some(p.offset), "coordinates to offset", "offset of {}:{} of {:?}", p.line, p.col, m.text);
        if full {
            let g = &m.text[p.offset..p.offset + p.len];
            ensure_eq!(c.char_at((p.line, p.col)).as_deref(), Some(g), "character", "character at {}:{} of {:?}", p.line, p.col, m.text);
            ensure_eq!(c.char_at_offset(p.offset).as_deref(), Some(g), "character", "character at offset {} of {:?}", p.offset, m.text);
        }
    }
    // outside: past the end of a line, past the last line
    for (i, l) in doc.lines.iter().enumerate().step_by(1 + doc.lines.len() / 40) {
        let beyond = l.width + 2;
        ensure_eq!(c.coord_to_offset(co(i + 1, beyond)), None, "coordinates out of range", "offset of {}:{} of {:?}", i + 1, beyond, m.text);
        ensure_eq!(c.coord_to_offset(co(i + 1, beyond + 5)), None, "coordinates out of range", "offset of {}:{} of {:?}", i + 1, beyond + 5, m.text);
    }
    ensure_eq!(c.coord_to_offset(co(doc.lines.len() + 1, 1)), None, "coordinates out of range", "offset of line {} of {:?}", doc.lines.len() + 1, m.text);
    let last = doc.pos.last().unwrap();
    ensure_eq!(c.max_coord(), co(last.line, last.col), "max coordinates", "last position of {:?}", m.text);
    if full {
        for (i, p) in doc.pos.iter().enumerate().step_by(1 + doc.pos.len() / 6) {
            for q in doc.pos[i..].iter().step_by(1 + doc.pos.len() / 6) {
                let want: Vec<String> = m.text[p.offset..q.offset].lines().map(String::from).collect();
                let got = c.lines_range((p.line, p.col), (q.line, q.col));
                ensure_eq!(got, want, "lines of a range", "lines from {}:{} to {}:{} of {:?}", p.line, p.col, q.line, q.col, m.text);
            }
        }
    }
    Ok(())
}

fn mark_history(case: &Case, m: &Model, cov: &mut Cov) {
    let edits = case.ops.len();
    let kinds: std::collections::HashSet<_> = case.ops.iter().map(std::mem::discriminant).collect();
    cov.hit_if(edits >= 60, "60 operations or more");
    cov.hit_if(edits >= 10, "10 operations or more");
    cov.hit_if(m.text.lines().count() > 30, "30 lines or more");
    cov.hit_if(m.text.len() > 250, "250 bytes or more");
    cov.hit_if(m.text.contains('\n'), "newline in the final text");
    if edits >= 3 && kinds.len() >= 2 {
        cov.nontrivial = true;
    }
}

pub struct C01;
impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "Case: an initial text and a history of appends, insertions, deletions (also of exactly an earlier insertion, and of everything), replacements and whole-text updates at character boundaries, texts from an alphabet with empty, multi-byte and newline pieces. After each operation text, length, emptiness and sub-ranges are compared with the same edits on a String; at the end every sub-range. Non-trivial: at least 3 operations of at least 2 kinds.";
    type Case = Case;
    fn cases(t: Tier) -> u64 {
        t.pick(200_000, 6_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        cases(false, true, t)
    }
    fn check(case: &Case, cov: &mut Cov) -> Res {
        let (mut b, mut m) = fresh(case);
        check_text(&b, &m, case.probe)?;
        for (i, op) in case.ops.iter().enumerate() {
            step(&mut b, &mut m, op, cov)?;
            check_text(&b, &m, case.probe.wrapping_add((i as u16).wrapping_mul(977)))?;
        }
        check_all_ranges(&b, &m)?;
        mark_history(case, &m, cov);
        Ok(())
    }
}

pub struct C02;
impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "Case: as C01. After each operation the line count, the lines and their lengths, and the coordinates of every offset and back are compared with those computed from the plain string (graphemes of an independent library); at the end also characters and line ranges. Non-trivial: at least 3 operations of at least 2 kinds.";
    type Case = Case;
    fn cases(t: Tier) -> u64 {
        t.pick(120_000, 2_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        cases(false, false, t)
    }
    fn check(case: &Case, cov: &mut Cov) -> Res {
        let (mut b, mut m) = fresh(case);
        check_lines(&b, &m, cov, true)?;
        for op in &case.ops {
            step(&mut b, &mut m, op, cov)?;
            check_lines(&b, &m, cov, false)?;
        }
        check_lines(&b, &m, cov, true)?;
        mark_history(case, &m, cov);
        Ok(())
    }
}

pub struct C03;
impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "Case: as C01 with undos and redos interleaved. After each operation text, length and line structure are compared with a model keeping whole versions of the text; at the end everything is undone and redone. Non-trivial: at least 3 operations of at least 2 kinds, one undo done among them.";
    type Case = Case;
    fn cases(t: Tier) -> u64 {
        t.pick(120_000, 4_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        cases(true, false, t)
    }
    fn check(case: &Case, cov: &mut Cov) -> Res {
        if cfg!(not(ced_verif)) {
            panic!("HARNESS: built without the hooks");
        }
        let (mut b, mut m) = fresh(case);
        let mut undone = false;
        for (i, op) in case.ops.iter().enumerate() {
            let had = m.undos.len();
            step(&mut b, &mut m, op, cov)?;
            undone |= matches!(op, Op::Undo) && m.undos.len() < had;
            check_text(&b, &m, case.probe.wrapping_add((i as u16).wrapping_mul(977)))?;
            check_lines(&b, &m, cov, false)?;
        }
        mark_history(case, &m, cov);
        cov.nontrivial &= undone;
        let mut n = 0;
        while !m.undos.is_empty() {
            step(&mut b, &mut m, &Op::Undo, cov)?;
            check_text(&b, &m, case.probe)?;
            n += 1;
        }
        step(&mut b, &mut m, &Op::Undo, cov)?;
        check_text(&b, &m, case.probe)?;
        check_lines(&b, &m, cov, false)?;
        for _ in 0..n {
            step(&mut b, &mut m, &Op::Redo, cov)?;
            check_text(&b, &m, case.probe)?;
        }
        check_lines(&b, &m, cov, true)?;
        Ok(())
    }
}
