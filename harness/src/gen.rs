//! Text generators: small alphabets chosen so that every interesting shape
//! (empty lines, multi-byte characters, combining marks, joined emoji, flags,
//! tabs, carriage returns, missing final newline) comes up often.

use proptest::prelude::*;

/// pieces of text; every one is a valid string on its own
pub const TOKENS: &[&str] = &[
    "a", "b", "c", "x", "Z", "0", "7", " ", "\t", ".", "é", "ß", "e\u{301}", "\u{301}", "漢", "🦊",
    "🐶", "👩\u{200d}👩\u{200d}👧", "🇫🇷", "🇯🇵", "1\u{fe0f}\u{20e3}", "❤\u{fe0f}", "\u{200d}", "\r", "Ω", "й",
];

/// one character of many bytes
pub fn long_cluster() -> BoxedStrategy<String> {
    (prop::sample::select(vec!["a", "é", "🦊"]), prop::sample::select(vec![14usize, 30, 31, 32, 33, 64, 130]))
        .prop_map(|(base, n)| base.to_owned() + &"\u{301}".repeat(n))
        .boxed()
}

pub fn token() -> BoxedStrategy<String> {
    prop_oneof![
        60 => prop::sample::select(vec!["a", "b", "c", "x", "Z", "7", " "]).prop_map(String::from),
        30 => prop::sample::select(TOKENS.to_vec()).prop_map(String::from),
        1 => long_cluster(),
        30 => Just("\n".to_string()),
    ]
    .boxed()
}

pub fn token_line() -> BoxedStrategy<String> {
    prop_oneof![
        60 => prop::sample::select(vec!["a", "b", "c", "x", "Z", "7", " "]).prop_map(String::from),
        30 => prop::sample::select(TOKENS.to_vec()).prop_map(String::from),
        1 => long_cluster(),
    ]
    .boxed()
}

/// any text, up to `n` tokens
pub fn text(n: usize) -> BoxedStrategy<String> {
    prop::collection::vec(token(), 0..=n)
        .prop_map(|v| v.concat())
        .boxed()
}

/// any text without newline
pub fn line(n: usize) -> BoxedStrategy<String> {
    prop::collection::vec(token_line(), 0..=n)
        .prop_map(|v| v.concat())
        .boxed()
}

/// ASCII only text (with newlines)
pub fn ascii(n: usize) -> BoxedStrategy<String> {
    prop::collection::vec(
        prop_oneof![4 => prop::sample::select(vec!["a","b","c","d"," "]), 1 => Just("\n")],
        0..=n,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

/// many lines, a long line, or many pieces
pub fn big() -> BoxedStrategy<String> {
    let sizes = || prop::sample::select(vec![9usize, 10, 11, 33, 65, 81, 100, 129, 257, 300]);
    prop_oneof![
        (sizes(), line(3), text(3)).prop_map(|(n, l, end)| {
            let lines: Vec<String> = (0..n).map(|i| if i % 7 == 3 { String::new() } else { format!("{}{}", i, l) }).collect();
            lines.join("\n") + &end
        }),
        (sizes(), token_line(), text(3), text(3)).prop_map(|(n, t, start, end)| start + &t.repeat(n) + &end),
        prop::collection::vec(token(), 60..130).prop_map(|v| v.concat()),
    ]
    .boxed()
}

/// very long texts, around powers of two
pub fn huge() -> BoxedStrategy<String> {
    (
        prop::sample::select(vec![4_096usize, 8_192, 32_768, 65_536, 131_072]),
        0usize..8,
        prop_oneof![3 => line(6), 1 => text(8)],
        line(2),
    )
        .prop_map(|(size, over, unit, end)| {
            let unit = if unit.is_empty() { "x".to_owned() } else { unit };
            // never too many lines: their index is slow
            let newlines = unit.matches('\n').count().max(1);
            let unit = if newlines * size / unit.len() > 400 { unit.replace('\n', " ") } else { unit };
            let mut s = unit.repeat(size / unit.len() + 1);
            let cut = (0..=(size + over).saturating_sub(4).min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap();
            s.truncate(cut);
            s + &end
        })
        .boxed()
}

/// a few of them, rarely many
pub fn few<S>(s: S, few: std::ops::Range<usize>, many: std::ops::Range<usize>) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
    S::Value: Clone,
{
    prop_oneof![
        60 => prop::collection::vec(s.clone(), few),
        1 => prop::collection::vec(s, many),
    ]
    .boxed()
}

/// mixture of sizes and alphabets
pub fn mixed(n: usize) -> BoxedStrategy<String> {
    prop_oneof![
        60 => sized(n),
        1 => big(),
    ]
    .boxed()
}

fn sized(n: usize) -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        1 => Just("\n".to_string()),
        4 => text(n),
        2 => text(4),
        2 => ascii(n),
        1 => line(n),
        2 => prop::collection::vec(line(8), 1..6).prop_map(|v| v.join("\n")),
        2 => prop::collection::vec(line(8), 1..6).prop_map(|v| v.join("\n") + "\n"),
    ]
    .boxed()
}

/// byte offset of the character boundary selected by `frac` (0..=65535) in `s`
pub fn boundary(s: &str, frac: u16) -> usize {
    let n = s.chars().count();
    let k = (frac as usize * (n + 1)) >> 16;
    s.char_indices()
        .map(|(i, _)| i)
        .chain(std::iter::once(s.len()))
        .nth(k)
        .unwrap()
}

/// keeps `Some(null)` apart from `None` in replays
pub mod optional {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use serde_json::Value;

    pub fn serialize<S: Serializer>(v: &Option<Value>, s: S) -> Result<S::Ok, S::Error> {
        v.iter().collect::<Vec<_>>().serialize(s)
    }

    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<Value>, D::Error> {
        Ok(Vec::<Value>::deserialize(d)?.pop())
    }
}
