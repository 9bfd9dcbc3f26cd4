//! C07: rendered views, in histories of the whole editor and directly for line ranges.

use crate::engine::*;
use crate::{ensure, ensure_eq};
use crate::gen;
use crate::machine::{self, lines_of, read_rendering, Profile, P07};
use crate::text::Doc;
use ced::editor::view::{Focus, Lens};
use ced::editor::{Buffer, View};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Shown {
    text: String,
    appended: Vec<String>,
    /// parts shown: none for the whole buffer, or from a line for so many lines
    parts: Vec<Option<(u16, u16)>>,
    sels: Vec<(u16, u16)>,
    selected: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Case {
    History(machine::Case),
    Parts(BTreeMap<String, Shown>),
}

const NAMES: [&str; 6] = ["b", "a", "B", "été", "a/b", "*x*"];

fn shown() -> BoxedStrategy<Shown> {
    (
        prop_oneof![
            gen::mixed(20),
            prop::collection::vec(gen::line(7), 2..9).prop_map(|v| v.join("\n")),
        ],
        prop::collection::vec(gen::mixed(5), 0..2),
        prop::collection::vec(prop::option::weighted(0.85, (any::<u16>(), any::<u16>())), 1..4),
        prop::collection::vec((any::<u16>(), any::<u16>()), 1..4),
        prop::bool::weighted(0.9),
    )
        .prop_map(|(text, appended, parts, sels, selected)| Shown { text, appended, parts, sels, selected })
        .boxed()
}

#[cfg(ced_verif_parts)]
fn parts(buffers: &BTreeMap<String, Shown>, cov: &mut Cov) -> Res {
    let mut bufs: HashMap<String, Buffer> = HashMap::new();
    let mut sels = HashMap::new();
    let mut view = View::default();
    // tells the type of the selections, which has no public name
    let _ = view.to_notification_params(&bufs, Some(&sels));
    // name -> (whole, ranges, text lines, highlighted)
    let mut want = Vec::new();
    for (name, s) in buffers {
        let mut b = Buffer::new_scratch(name.clone(), s.text.clone());
        let mut text = if s.text.is_empty() { "\n".to_string() } else { s.text.clone() };
        for t in &s.appended {
            b.append(t.clone());
            text += t;
        }
        let doc = Doc::new(&text);
        let n = lines_of(&text).len();
        let mut ranges = Vec::new();
        for p in &s.parts {
            let focus = match p {
                None => Focus::Whole,
                Some((a, l)) => {
                    let a = *a as usize % n;
                    let e = a + 1 + *l as usize % (n - a);
                    if a > 0 {
                        cov.mark("part not starting at the first line");
                    }
                    Focus::Range(a..e)
                }
            };
            view.add_lens(Lens { buffer: name.clone(), focus: focus.clone() });
            ranges.push(match focus {
                Focus::Whole => None,
                Focus::Range(r) => Some((r.start, r.end)),
            });
        }
        let (mut shown, mut chosen) = (Vec::new(), Vec::new());
        if s.selected {
            let at = |f: &u16| doc.pos[*f as usize % doc.pos.len()].offset;
            // a client never has selections that overlap (before a newline, CR has the same place as it)
            let at_most = if text.contains("\r\n") { 1 } else { s.sels.len() };
            for (a, c) in &s.sels[..at_most.min(s.sels.len())] {
                let (x, y) = (at(a).min(at(c)), at(a).max(at(c)));
                if shown.iter().all(|(b, e)| doc.after(y) <= *b || doc.after(*e) <= x) {
                    shown.push((x, y));
                    chosen.push((at(a), at(c)));
                }
            }
            cov.hit_if(shown.len() > 1, "several selections in a buffer");
            sels.insert(name.clone(), vec![Default::default(); shown.len()]);
            for (sel, (a, c)) in sels.get_mut(name).unwrap().iter_mut().zip(&chosen) {
                sel.anchor = *a;
                sel.cursor = *c;
            }
        }
        bufs.insert(name.clone(), b);
        // parts in order, the whole buffer last
        ranges.sort_by_key(|r| r.unwrap_or((usize::MAX, 0)));
        want.push((name, ranges, machine::render(&text, &shown), n));
    }
    let got = view.to_notification_params(&bufs, Some(&sels));
    let got = serde_json::to_value(&got).expect("HARNESS: view");
    let items = read_rendering(&got).map_err(|e| Fail::new("shape of a view", format!("{}: {}", e, got)))?;
    let names: Vec<&String> = items.iter().map(|i| &i.buffer).collect();
    let wanted: Vec<&String> = want.iter().map(|w| w.0).collect();
    ensure_eq!(names, wanted, "buffers shown", "{:?}", got);
    if buffers.len() > 1 {
        cov.mark("parts of several buffers");
    }
    for (item, (name, ranges, lines, n)) in items.iter().zip(&want) {
        ensure_eq!(item.lenses.len(), ranges.len(), "number of parts", "{:?}", got);
        let increasing = ranges.windows(2).all(|w| matches!((w[0], w[1]), (Some(a), Some(b)) if a.1 <= b.1));
        if ranges.iter().any(|r| r.is_none()) {
            ensure_eq!((item.start, item.end), (1, *n as u64), "range of lines of a buffer", "{:?}", got);
        } else if increasing {
            let (first, last) = (ranges[0].unwrap(), ranges[ranges.len() - 1].unwrap());
            ensure_eq!((item.start, item.end), (first.0 as u64 + 1, last.1 as u64), "range of lines of a buffer", "{:?}", got);
        }
        for ((first, got), r) in item.lenses.iter().zip(ranges) {
            let (a, e) = r.unwrap_or((0, *n));
            ensure_eq!(*first, a as u64 + 1, "first line number of a part", "{:?}", got);
            let gt: Vec<&String> = got.iter().map(|(t, _)| t).collect();
            let wt: Vec<&String> = lines[a..e].iter().map(|(t, _)| t).collect();
            ensure_eq!(gt, wt, "lines of a part", "{:?}", got);
            for ((t, g), (_, w)) in got.iter().zip(&lines[a..e]) {
                ensure!(g == w, "highlighted characters of a part", "buffer {:?}, lines {}..{}, line {:?}: {:?}, expected {:?}", name, a, e, t, g, w);
                if g.iter().any(|x| *x) {
                    cov.hit(if t.is_ascii() { "highlight in a part" } else { "highlight on a multi-byte line of a part" });
                    if a > 0 {
                        cov.mark("highlight in a part not starting at the first line");
                    }
                }
            }
        }
    }
    Ok(())
}

#[cfg(not(ced_verif_parts))]
fn parts(_buffers: &BTreeMap<String, Shown>, cov: &mut Cov) -> Res {
    cov.hit("parts not rendered, for lack of the hooks");
    Ok(())
}

pub struct C07;

impl Prop for C07 {
    const ID: &'static str = P07::ID;
    const RULE: &'static str = P07::RULE;
    const ASSUMPTIONS: &'static [&'static str] = machine::M::<P07>::ASSUMPTIONS;
    type Case = Case;
    fn cases(tier: Tier) -> u64 {
        tier.pick(P07::CASES.0, P07::CASES.1)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            3 => machine::case(P07::WEIGHTS, P07::LEN, tier).prop_map(Case::History),
            2 => prop::collection::btree_map(prop::sample::select(NAMES.to_vec()).prop_map(String::from), shown(), 1..4)
                .prop_map(Case::Parts),
        ]
        .boxed()
    }
    fn check(c: &Case, cov: &mut Cov) -> Res {
        match c {
            Case::History(c) => machine::run(c, P07::ENFORCED, P07::NONTRIVIAL, cov),
            Case::Parts(b) => parts(b, cov),
        }
    }
}
