//! C12 (JSON-RPC codec), C13 (keys), C14 (session names)

use crate::engine::*;
use crate::{ensure, ensure_eq};
use ced_remote::jsonrpc::{ClientEvent, Error, Id, Notification, Request, Response};
use ced_remote::protocol::{Key, KeyEvent};
use ced_remote::{ConnectionMode, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::PathBuf;

// ------------------------------------------------------------------------ C12

pub struct C12;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum JId {
    N(i32),
    S(String),
    Null,
}

impl JId {
    pub fn id(&self) -> Id {
        match self {
            JId::N(n) => Id::Number(*n),
            JId::S(s) => Id::String(s.clone()),
            JId::Null => Id::Null,
        }
    }
    pub fn json(&self) -> Value {
        match self {
            JId::N(n) => json!(n),
            JId::S(s) => json!(s),
            JId::Null => Value::Null,
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Msg {
    Request(JId, String, #[serde(with = "crate::gen::optional")] Option<Value>),
    Notification(String, #[serde(with = "crate::gen::optional")] Option<Value>),
    Result(JId, Value),
    /// a response built with an absent result
    Nothing(JId),
    /// a response changed afterwards
    SetResult(JId, Value, Value),
    Error(JId, i32, String, #[serde(with = "crate::gen::optional")] Option<Value>),
    /// one of the four ready-made errors
    Std(JId, u8, String),
    /// not a message: must be refused
    Garbage(String),
    /// a request, truncated after so many characters out of 65536
    Truncated(JId, String, #[serde(with = "crate::gen::optional")] Option<Value>, u16),
}

pub fn strings() -> BoxedStrategy<String> {
    prop_oneof![
        60 => "[a-z]{0,6}",
        40 => prop::collection::vec(prop::sample::select(vec![
            "\n", "\r", "\"", "\\", "\t", "\u{0}", "\u{1}", "\u{7f}", "\u{2028}", "\u{2029}", "\u{85}", "é",
            "🦊", "\u{10ffff}", "\u{feff}", "{", "}", "[", "]", ":", ",", "a", " ", "/", "\u{d7ff}", "\u{e000}",
        ]), 0..8).prop_map(|v| v.concat()),
        20 => prop::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect()),
        // long ones
        1 => (prop::sample::select(vec!["a", "é", "b c", "\""]), prop::sample::select(vec![40usize, 128, 300, 1100])).prop_map(|(s, n)| s.repeat(n)),
    ]
    .boxed()
}

pub fn json_value() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        1 => Just(Value::Null),
        1 => any::<bool>().prop_map(|b| json!(b)),
        2 => any::<i64>().prop_map(|n| json!(n)),
        1 => any::<u64>().prop_map(|n| json!(n)),
        2 => (-100i64..100).prop_map(|n| json!(n)),
        // exact binary fractions: printing and parsing them is exact
        1 => (-1_000_000i32..1_000_000, 0u32..8).prop_map(|(n, s)| json!(n as f64 / f64::from(1u32 << s))),
        4 => strings().prop_map(|s| json!(s)),
    ];
    leaf.prop_recursive(3, 24, 5, |inner| {
        prop_oneof![
            prop::collection::vec(inner.clone(), 0..5).prop_map(Value::Array),
            prop::collection::vec((strings(), inner), 0..5)
                .prop_map(|v| Value::Object(v.into_iter().collect())),
        ]
    })
    .boxed()
}

pub fn jid() -> BoxedStrategy<JId> {
    prop_oneof![
        3 => prop_oneof![any::<i32>(), 0i32..10, Just(i32::MIN), Just(i32::MAX)].prop_map(JId::N),
        2 => strings().prop_map(JId::S),
        1 => Just(JId::Null),
    ]
    .boxed()
}

/// lines which are neither a notification nor a response nor a request
pub fn garbage() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => strings().prop_filter("not an object", |s| !s.trim_start().starts_with('{')),
        // any JSON which is not an object
        2 => json_value().prop_filter("not an object", |v| !v.is_object()).prop_map(|v| v.to_string()),
        // arrays with the fields of a message in order: still not an object
        1 => (jid(), strings(), json_value()).prop_map(|(i, m, p)| json!(["2.0", i.json(), m, p]).to_string()),
        1 => (strings(), json_value()).prop_map(|(m, p)| json!(["2.0", m, p]).to_string()),
        1 => (jid(), json_value()).prop_map(|(i, p)| json!(["2.0", i.json(), p, null]).to_string()),
        // neither method nor id
        2 => json_value().prop_map(|v| json!({"jsonrpc": "2.0", "result": v}).to_string()),
        1 => json_value().prop_map(|v| json!({"jsonrpc": "2.0", "params": v}).to_string()),
        1 => Just("{}".to_string()),
        // no version
        1 => strings().prop_map(|m| json!({"method": m, "params": null}).to_string()),
        // ill-typed method, id or error
        1 => json_value().prop_filter("not a string", |v| !v.is_string())
            .prop_map(|v| json!({"jsonrpc": "2.0", "method": v}).to_string()),
        1 => prop_oneof![
                Just(json!(true)), Just(json!([1])), Just(json!({"a": 1})), Just(json!(1.5)),
                Just(json!(3_000_000_000i64)), Just(json!(-3_000_000_000i64)),
            ].prop_map(|v| json!({"jsonrpc": "2.0", "id": v, "result": 1}).to_string()),
        1 => prop_oneof![
                Just(json!("x")), Just(json!(12)), Just(json!({"code": 1})), Just(json!({"message": "m"})),
                Just(json!({"code": "1", "message": "m"})), Just(json!({"code": 1, "message": 2})),
            ].prop_map(|v| json!({"jsonrpc": "2.0", "id": 1, "error": v}).to_string()),
        // two messages on one line, text after a message
        1 => Just(r#"{"jsonrpc":"2.0","method":"a"}{"jsonrpc":"2.0","method":"a"}"#.to_string()),
        1 => strings().prop_filter("visible", |s| !s.trim().is_empty())
            .prop_map(|s| format!(r#"{{"jsonrpc":"2.0","id":1,"result":1}}{}"#, s)),
        // an endless nesting
        1 => (1usize..4000).prop_map(|n| "[".repeat(n)),
        1 => (1usize..4000).prop_map(|n| "{\"a\":".repeat(n)),
    ]
    .boxed()
}

fn show_id(id: &Id) -> Value {
    match id {
        Id::Number(n) => json!(n),
        Id::String(s) => json!(s),
        Id::Null => Value::Null,
    }
}

fn opt(v: &Option<Value>) -> Value {
    v.clone().unwrap_or(Value::Null)
}

fn code_of(e: &Error) -> (Value, Value, Value) {
    let v: Value = serde_json::from_str(&e.to_string()).unwrap_or(Value::Null);
    (v["code"].clone(), v["message"].clone(), v["data"].clone())
}

/// the line must parse as a JSON object with these members (absent = null for optional ones)
fn wire(line: &str, want: Value) -> Res {
    ensure!(
        !line.contains('\n') && !line.contains('\r'),
        "several lines",
        "encoded on several lines: {:?}",
        line
    );
    let got: Value = serde_json::from_str(line)
        .map_err(|e| Fail::new("not json", format!("not JSON: {}: {:?}", e, line)))?;
    for (k, v) in want.as_object().unwrap() {
        ensure_eq!(got[k], *v, "wire", "member {} of {:?}", k, line);
    }
    ensure_eq!(got["jsonrpc"], json!("2.0"), "wire", "version of {:?}", line);
    Ok(())
}

fn parse<T: std::str::FromStr + std::fmt::Display>(line: &str, what: &str) -> Result<T, Fail>
where
    T::Err: std::fmt::Display,
{
    let back = |line: &str| {
        line.parse::<T>()
            .map_err(|e| Fail::new("parse back", format!("{} does not parse back: {}: {:?}", what, e, line)))
    };
    // the same message as another program may write it: members in another order, blanks between and around
    let mut v: Value = serde_json::from_str(line)
        .map_err(|e| Fail::new("not json", format!("not JSON: {}: {:?}", e, line)))?;
    // absent and null are the same
    if let Some(o) = v.as_object_mut() {
        if o.get("params") == Some(&Value::Null) {
            o.remove("params");
        }
    }
    if let Some(o) = v.get_mut("error").and_then(Value::as_object_mut) {
        if o.get("data") == Some(&Value::Null) {
            o.remove("data");
        }
    }
    let other = format!(" \t{} \r", serde_json::to_string_pretty(&v).unwrap().replace('\n', " "));
    let shown = |t: &T| {
        serde_json::from_str::<Value>(&t.to_string()).map_err(|e| Fail::new("not json", format!("not JSON: {}", e)))
    };
    let got = back(line)?;
    ensure_eq!(shown(&back(&other)?)?, shown(&got)?, "parse back", "{} written otherwise: {:?}", what, other);
    Ok(got)
}

fn response_case(id: &JId, r: &Response, want: Result<Value, (Value, Value, Value)>) -> Res {
    let line = r.to_string();
    let shown = match &want {
        Ok(v) => json!({"id": id.json(), "result": v, "error": null}),
        Err((c, m, d)) => json!({"id": id.json(), "result": null, "error": {"code": c, "message": m, "data": d}}),
    };
    wire(&line, shown)?;
    let back: Response = parse(&line, "a response")?;
    for (r, what) in [(r, "built"), (&back, "parsed")] {
        ensure_eq!(show_id(&r.id), id.json(), "response id", "id of the {} response", what);
        let res = r
            .result::<Value>()
            .map_err(|e| Fail::new("response result", format!("{} result: {}", what, e)))?;
        let res = res.map_err(|e| code_of(&e));
        ensure_eq!(res, want, "response result", "{} result of {:?}", what, line);
    }
    match parse::<ClientEvent>(&line, "a response")? {
        ClientEvent::Response(r) => {
            let res = r
                .result::<Value>()
                .map_err(|e| Fail::new("response result", e.to_string()))?
                .map_err(|e| code_of(&e));
            ensure_eq!(res, want, "event result", "result of the event {:?}", line);
            ensure_eq!(show_id(&r.id), id.json(), "event id", "id of the event {:?}", line);
        }
        _ => return Err(Fail::new("kind", format!("a response taken for a notification: {:?}", line))),
    }
    let ev: ClientEvent = parse(&line, "a response")?;
    ensure!(ev.is_response() && !ev.is_notification(), "kind", "kind of {:?}", line);
    ensure_eq!(ev.to_string(), line, "re-encode", "the event encoded again");
    ensure_eq!(back.to_string(), line, "re-encode", "the response encoded again");
    ensure!(line.parse::<Request>().is_err(), "kind", "a response taken for a request: {:?}", line);
    Ok(())
}

fn rejected(line: &str) -> Res {
    ensure!(line.parse::<ClientEvent>().is_err(), "accepted", "accepted as an event: {:?}", line);
    ensure!(line.parse::<Notification>().is_err(), "accepted", "accepted as a notification: {:?}", line);
    ensure!(line.parse::<Request>().is_err(), "accepted", "accepted as a request: {:?}", line);
    // a request may hold what a response needs (unknown members are ignored)
    ensure!(line.parse::<Response>().is_err(), "accepted", "accepted as a response: {:?}", line);
    Ok(())
}

impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "requests, notifications, responses (results, errors, absent and null values) built from generated ids, names and JSON values (control characters, quotes, every plane of Unicode, nested values), plus malformed lines (truncated messages, arrays, ill-typed or missing members, trailing text, deep nesting). Oracle: the wire form compared member by member with a separately built JSON object, a parse/print round trip, and refusal of malformed lines; the same message laid out otherwise (order of members, blanks). Non-trivial: a message with a non-null value or error, or a malformed non-empty line.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a null parameter and an absent one are the same, as are a null and an absent error data",
        "messages holding both a method and an id are not sent to a client (none is ever built for one)",
        "floating point values are exact binary fractions",
    ];
    type Case = Vec<Msg>;
    fn cases(tier: Tier) -> u64 {
        tier.pick(120_000, 2_000_000)
    }
    fn strategy(_tier: Tier) -> BoxedStrategy<Vec<Msg>> {
        let p = || prop::option::of(json_value());
        let msg = prop_oneof![
            3 => (jid(), strings(), p()).prop_map(|(a, b, c)| Msg::Request(a, b, c)),
            3 => (strings(), p()).prop_map(|(a, b)| Msg::Notification(a, b)),
            3 => (jid(), json_value()).prop_map(|(a, b)| Msg::Result(a, b)),
            1 => jid().prop_map(Msg::Nothing),
            1 => (jid(), json_value(), json_value()).prop_map(|(a, b, c)| Msg::SetResult(a, b, c)),
            2 => (jid(), any::<i32>(), strings(), p()).prop_map(|(a, b, c, d)| Msg::Error(a, b, c, d)),
            2 => (jid(), 0u8..4, strings()).prop_map(|(a, b, c)| Msg::Std(a, b, c)),
            3 => garbage().prop_map(Msg::Garbage),
            2 => (jid(), strings(), p(), any::<u16>()).prop_map(|(a, b, c, d)| Msg::Truncated(a, b, c, d)),
        ];
        prop::collection::vec(msg, 1..4).boxed()
    }
    fn check(case: &Vec<Msg>, cov: &mut Cov) -> Res {
        for m in case {
            match m {
                Msg::Request(id, method, params) => {
                    cov.mark_if(params.is_some(), "request with parameters");
                    let r = Request::new::<Value, _, _>(id.id(), method.as_str(), params.clone())
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    let line = r.to_string();
                    wire(&line, json!({"id": id.json(), "method": method, "params": opt(params)}))?;
                    let back: Request = parse(&line, "a request")?;
                    for r in [&r, &back] {
                        ensure_eq!(show_id(&r.id), id.json(), "request id", "id");
                        ensure_eq!(r.method, *method, "request method", "method");
                        let p = r.params::<Value>().map_err(|e| Fail::new("params", e.to_string()))?;
                        ensure_eq!(opt(&p), opt(params), "request params", "parameters of {:?}", line);
                    }
                    if params.is_none() {
                        ensure!(
                            back.params::<Value>().map(|p| p.is_none()).unwrap_or(false),
                            "request params",
                            "absent parameters appeared: {:?}",
                            line
                        );
                    }
                }
                Msg::Notification(method, params) => {
                    cov.mark_if(params.is_some(), "notification with parameters");
                    let n = Notification::new::<Value, _, _>(method.as_str(), params.clone())
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    let line = n.to_string();
                    wire(&line, json!({"method": method, "params": opt(params), "id": null}))?;
                    let back: Notification = parse(&line, "a notification")?;
                    let ev: ClientEvent = parse(&line, "a notification")?;
                    ensure!(ev.is_notification() && !ev.is_response(), "kind", "kind of {:?}", line);
                    let evn = match ev {
                        ClientEvent::Notification(n) => n,
                        _ => return Err(Fail::new("kind", format!("taken for a response: {:?}", line))),
                    };
                    for n in [&n, &back, &evn] {
                        ensure_eq!(n.method, *method, "notification method", "method");
                        let p = n.params::<Value>().map_err(|e| Fail::new("params", e.to_string()))?;
                        ensure_eq!(opt(&p), opt(params), "notification params", "parameters of {:?}", line);
                    }
                    ensure!(
                        line.parse::<Request>().is_err() && line.parse::<Response>().is_err(),
                        "kind",
                        "a notification taken for something else: {:?}",
                        line
                    );
                }
                Msg::Result(id, v) => {
                    cov.mark_if(!v.is_null(), "result");
                    cov.hit_if(v.is_null(), "null result");
                    let r = Response::new(id.id(), Ok::<_, Error>(v.clone()))
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    response_case(id, &r, Ok(v.clone()))?;
                    let r = Response::success(id.id(), Some(v.clone()))
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    response_case(id, &r, Ok(v.clone()))?;
                }
                Msg::Nothing(id) => {
                    cov.hit("absent result");
                    let r = Response::success(id.id(), None::<Value>)
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    response_case(id, &r, Ok(Value::Null))?;
                }
                Msg::SetResult(id, a, b) => {
                    cov.mark("result set again");
                    let mut r = Response::invalid_request(id.id(), "first");
                    let set = |r: &mut Response, v: Result<Value, Error>| {
                        r.set_result(v).map_err(|e| Fail::new("build", e.to_string()))
                    };
                    set(&mut r, Ok(a.clone()))?;
                    response_case(id, &r, Ok(a.clone()))?;
                    let e = Error::new::<Value, _>(7, "m".to_string(), Some(a.clone()))
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    set(&mut r, Err(e))?;
                    response_case(id, &r, Err((json!(7), json!("m"), a.clone())))?;
                    set(&mut r, Ok(b.clone()))?;
                    response_case(id, &r, Ok(b.clone()))?;
                }
                Msg::Error(id, code, message, data) => {
                    cov.mark("error");
                    let e = Error::new::<Value, _>(*code, message.clone(), data.clone())
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    let d = e.data::<Value>().map_err(|e| Fail::new("data", e.to_string()))?;
                    ensure_eq!(opt(&d), opt(data), "error data", "data of the error");
                    let r = Response::new(id.id(), Err::<Value, _>(e))
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    response_case(id, &r, Err((json!(code), json!(message), opt(data))))?;
                }
                Msg::Std(id, k, text) => {
                    cov.mark("standard error");
                    let (r, code) = match k {
                        0 => (Response::invalid_request(id.id(), text), -32600),
                        1 => (Response::method_not_found(id.id(), text), -32601),
                        2 => (Response::invalid_params(id.id(), text), -32602),
                        _ => (
                            Response::new(id.id(), Err::<Value, _>(Error::internal_error(text)))
                                .map_err(|e| Fail::new("build", e.to_string()))?,
                            -32603,
                        ),
                    };
                    let v: Value = serde_json::from_str(&r.to_string())
                        .map_err(|e| Fail::new("not json", e.to_string()))?;
                    let m = v["error"]["message"].clone();
                    ensure!(m.is_string(), "error message", "no message: {}", v);
                    response_case(id, &r, Err((json!(code), m, json!(text))))?;
                }
                Msg::Garbage(line) => {
                    cov.mark_if(!line.is_empty(), "malformed line");
                    rejected(line)?;
                }
                Msg::Truncated(id, method, params, cut) => {
                    cov.mark("truncated message");
                    let r = Request::new::<Value, _, _>(id.id(), method.as_str(), params.clone())
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    let n = Notification::new::<Value, _, _>(method.as_str(), params.clone())
                        .map_err(|e| Fail::new("build", e.to_string()))?;
                    for line in [r.to_string(), n.to_string()] {
                        let k = crate::gen::boundary(&line, *cut);
                        if k < line.len() {
                            rejected(&line[..k])?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C13

pub struct C13;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum KeyCase {
    /// every modifier combination of these characters, and their typed form
    Chars(Vec<char>),
    /// the same for every character of a range
    Block { from: u32, len: u32 },
    /// every modifier combination of the named keys
    Named,
    /// a list of events sent as the parameters of a request: (modifiers, key)
    List(Vec<(u8, Result<char, u8>)>),
}

pub fn named(k: u8) -> Key {
    match k % 7 {
        0 => Key::Backspace,
        1 => Key::Enter,
        2 => Key::Escape,
        3 => Key::Up,
        4 => Key::Down,
        5 => Key::Left,
        _ => Key::Right,
    }
}

fn event(mods: u8, key: Key) -> KeyEvent {
    KeyEvent {
        ctrl: mods & 1 != 0,
        alt: mods & 2 != 0,
        shift: mods & 4 != 0,
        key,
    }
}

const NAMES: [&str; 7] = ["bkspc", "ret", "esc", "up", "down", "left", "right"];

fn key_round(mods: u8, mk: &dyn Fn() -> Key, name: &str, deep: bool) -> Res {
    let e = event(mods, mk());
    let text = e.to_string();
    let want = format!(
        "{}{}{}{}",
        if mods & 1 != 0 { "c-" } else { "" },
        if mods & 2 != 0 { "a-" } else { "" },
        if mods & 4 != 0 { "s-" } else { "" },
        name
    );
    ensure_eq!(text, want, "key text", "textual form of {:?}", e);
    let back = KeyEvent::from(text.as_str());
    ensure_eq!(back, e, "key text round trip", "{:?} parsed", text);
    if deep {
        let json = serde_json::to_string(&e).map_err(|e| Fail::new("key json", e.to_string()))?;
        let back: KeyEvent =
            serde_json::from_str(&json).map_err(|e| Fail::new("key json", format!("{}: {}", e, json)))?;
        ensure_eq!(back, e, "key wire round trip", "{:?} decoded", json);
    }
    Ok(())
}

fn typed(c: char) -> Res {
    let e = KeyEvent::from(c);
    let (want, shift) = if c.is_ascii_uppercase() {
        (c.to_ascii_lowercase(), true)
    } else {
        (c, false)
    };
    ensure_eq!(
        e,
        KeyEvent { ctrl: false, alt: false, shift, key: Key::Char(want) },
        "typed key",
        "key of the typed {:?}",
        c
    );
    let back = KeyEvent::from(e.to_string().as_str());
    ensure_eq!(back, e, "typed key round trip", "typed {:?}", c);
    Ok(())
}

fn chars_case(c: char, deep: bool) -> Res {
    typed(c)?;
    if !c.is_ascii_uppercase() {
        let name = c.to_string();
        for mods in 0..8 {
            key_round(mods, &|| Key::Char(c), &name, deep)?;
        }
    }
    Ok(())
}

impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "key events: the 7 named keys and every Unicode character that is not an ASCII capital, each with the 8 modifier combinations (exhaustive in both tiers), and random lists of events sent as request parameters. Oracle: the documented textual form built separately, and round trips through text and JSON. Non-trivial: every case.";
    type Case = KeyCase;
    fn cases(tier: Tier) -> u64 {
        tier.pick(4_000, 100_000)
    }
    const CASE_CPU_S: u64 = 60;
    fn strategy(_tier: Tier) -> BoxedStrategy<KeyCase> {
        let ch = prop_oneof![
            2 => any::<char>(),
            2 => proptest::char::range('\0', '\u{ff}'),
            2 => prop::sample::select("cas-+ \n\t\"\\\u{0}ß🦊é".chars().collect::<Vec<_>>()),
        ];
        prop_oneof![
            2 => prop::collection::vec(ch.clone(), 1..8).prop_map(KeyCase::Chars),
            2 => prop::collection::vec((0u8..8, prop_oneof![3 => ch.prop_map(Ok), 1 => (0u8..7).prop_map(Err)]), 0..8)
                .prop_map(KeyCase::List),
        ]
        .boxed()
    }
    fn fixed(_tier: Tier) -> Vec<KeyCase> {
        let mut v = vec![KeyCase::Named];
        let step = 0x2000;
        let mut from = 0;
        while from <= 0x10ffff {
            v.push(KeyCase::Block { from, len: step });
            from += step;
        }
        v
    }
    fn check(case: &KeyCase, cov: &mut Cov) -> Res {
        match case {
            KeyCase::Chars(cs) => {
                cov.mark("characters");
                for c in cs {
                    chars_case(*c, true)?;
                }
            }
            KeyCase::Block { from, len } => {
                cov.mark("block of characters");
                for c in (*from..from.saturating_add(*len)).filter_map(char::from_u32) {
                    chars_case(c, true)?;
                }
            }
            KeyCase::Named => {
                cov.mark("named keys");
                for (i, name) in NAMES.iter().enumerate() {
                    for mods in 0..8 {
                        key_round(mods, &|| named(i as u8), name, true)?;
                    }
                }
            }
            KeyCase::List(l) => {
                cov.mark("list of keys");
                let make = || -> Vec<KeyEvent> {
                    l.iter()
                        .map(|(m, k)| {
                            event(
                                *m,
                                match k {
                                    Ok(c) => Key::Char(*c),
                                    Err(n) => named(*n),
                                },
                            )
                        })
                        .collect()
                };
                let r = Request::new(Id::Number(1), "keys", make())
                    .map_err(|e| Fail::new("build", e.to_string()))?;
                let back: Request = parse(&r.to_string(), "a request")?;
                let keys = back
                    .params::<Vec<KeyEvent>>()
                    .map_err(|e| Fail::new("params", e.to_string()))?;
                ensure_eq!(keys, Some(make()), "key list", "keys of {}", r);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C14

pub struct C14;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SessionCase {
    pub names: Vec<String>,
    /// sockets to create in the session directory
    pub sockets: Vec<String>,
    /// whether the session directory exists when there is no socket
    pub dir: bool,
}

/// a TCP endpoint when the name is `@[a.b.c.d]:port` with numbers in range
fn tcp_of(name: &str) -> Option<([u8; 4], u16)> {
    let rest = name.strip_prefix('@')?;
    let colon = rest.find(':')?;
    let (addr, port) = (&rest[..colon], &rest[colon + 1..]);
    let num = |s: &str, max: u64| -> Option<u64> {
        if s.is_empty() || s.len() > 9 || !s.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let n: u64 = s.parse().ok()?;
        if n <= max {
            Some(n)
        } else {
            None
        }
    };
    let ip = if addr.is_empty() {
        [127, 0, 0, 1]
    } else {
        let parts: Vec<&str> = addr.split('.').collect();
        if parts.len() != 4 {
            return None;
        }
        let mut ip = [0; 4];
        for (i, p) in parts.iter().enumerate() {
            ip[i] = num(p, 255)? as u8;
        }
        ip
    };
    Some((ip, num(port, 65535)? as u16))
}

/// forms on which the statement is silent: numbers written with leading zeros
fn ambiguous(name: &str) -> bool {
    name.starts_with('@')
        && name[1..]
            .split(|c| c == '.' || c == ':')
            .any(|p| p.len() > 1 && p.starts_with('0') && p.bytes().all(|b| b.is_ascii_digit()))
}

fn session_name() -> BoxedStrategy<String> {
    let num = prop_oneof![
        3 => (0u32..300).prop_map(|n| n.to_string()),
        1 => Just("255".to_string()),
        1 => Just("256".to_string()),
        1 => Just(String::new()),
        1 => Just("1a".to_string()),
        1 => Just("٣".to_string()),
        1 => Just("99999999999999999999".to_string()),
    ];
    let port = prop_oneof![
        4 => (0u32..70000).prop_map(|n| n.to_string()),
        1 => prop::sample::select(vec!["65535", "65536", "0", "", "-1", "8888 ", "12x", "18446744073709551616", "٣", "80\n"])
            .prop_map(String::from),
    ];
    let addr = prop_oneof![
        3 => Just(String::new()),
        4 => prop::collection::vec((0u32..256).prop_map(|n| n.to_string()), 4).prop_map(|v| v.join(".")),
        2 => prop::collection::vec(num, 1..6).prop_map(|v| v.join(".")),
        1 => prop::sample::select(vec!["localhost", "::1", "[::1]", "example.org", "1.2.3.4.5", "1.2.3", "...", " 1.2.3.4"])
            .prop_map(String::from),
    ];
    prop_oneof![
        5 => (addr, port).prop_map(|(a, p)| format!("@{}:{}", a, p)),
        1 => prop::sample::select(vec!["@", "@:", "@bar", ":80", "127.0.0.1:80", "x@:80", "@@:80", "@:80:80", " @:80", "@:80 ", "@:80\n"])
            .prop_map(String::from),
        4 => plain_name(),
        1 => strings(),
    ]
    .boxed()
}

fn plain_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z0-9]{1,8}",
        1 => Just(std::process::id().to_string()),
        1 => prop::collection::vec(prop::sample::select(vec!["a", "é", "🦊", " ", ".", "@", ":", "-", "\n", "*", "~", "$", "%"]), 1..6)
            .prop_map(|v| v.concat()),
    ]
    .boxed()
}

/// names that are a plain file name: the only ones that can name a socket of the directory
fn is_file_name(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains('/') && !n.contains('\0')
}

impl Prop for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "session names (addresses with numbers in and out of range, missing and malformed parts, host names, unicode digits; plain names with any character) and sets of sockets really bound in the session directory. Oracle: an independent hand-written address parser; print and parse back; directory listing against the set of sockets made. Non-trivial: a TCP name, a name that only looks like one, or a listing of at least one socket.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "names that are not a file name (empty, '.', '..', with '/' or NUL) are only required not to crash",
        "numbers written with leading zeros are only required not to crash",
    ];
    type Case = SessionCase;
    fn cases(tier: Tier) -> u64 {
        tier.pick(120_000, 1_000_000)
    }
    fn strategy(_tier: Tier) -> BoxedStrategy<SessionCase> {
        (
            prop::collection::vec(session_name(), 1..5),
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(plain_name(), 1..5)],
            any::<bool>(),
        )
            .prop_map(|(names, sockets, dir)| SessionCase { names, sockets, dir })
            .boxed()
    }
    fn check(case: &SessionCase, cov: &mut Cov) -> Res {
        let root = std::env::temp_dir().join("ced-verif");
        for name in &case.names {
            let session = Session::from_name(name);
            let printed = session.to_string();
            if ambiguous(name) {
                continue;
            }
            match tcp_of(name) {
                Some((ip, port)) => {
                    cov.mark("tcp name");
                    let want = ConnectionMode::Tcp(std::net::SocketAddr::from((ip, port)));
                    ensure_eq!(session.mode, want, "tcp name", "endpoint of {:?}", name);
                    let again = Session::from_name(&printed);
                    ensure_eq!(again.mode, want, "tcp print", "endpoint of the printed {:?}", printed);
                }
                None => {
                    cov.mark_if(name.starts_with('@'), "socket name that looks like an address");
                    if is_file_name(name) {
                        cov.hit("socket name");
                        let want = ConnectionMode::Socket(root.join(name));
                        ensure_eq!(session.mode, want, "socket name", "endpoint of {:?}", name);
                        ensure_eq!(printed, *name, "socket print", "printed name");
                        let again = Session::from_name(&printed);
                        ensure_eq!(again.mode, want, "socket print", "endpoint of the printed {:?}", printed);
                    }
                }
            }
        }
        // names of distinct endpoints stay distinct
        let mut wanted: Vec<String> = Vec::new();
        let mut guards = Vec::new();
        let made: PathBuf = root.clone();
        let _ = std::fs::remove_dir_all(&made);
        if case.dir || !case.sockets.is_empty() {
            std::fs::create_dir_all(&made).expect("HARNESS: session directory");
        }
        for s in &case.sockets {
            if !is_file_name(s) || tcp_of(s).is_some() || wanted.contains(s) {
                continue;
            }
            if let ConnectionMode::Socket(path) = Session::from_name(s).mode {
                guards.push(std::os::unix::net::UnixListener::bind(&path).map_err(|e| {
                    Fail::new("bind", format!("cannot bind {:?} of session {:?}: {}", path, s, e))
                })?);
                wanted.push(s.clone());
            }
        }
        wanted.sort();
        let mut got = Session::list();
        got.sort();
        cov.mark_if(!wanted.is_empty(), "listing");
        ensure_eq!(got, wanted, "session list", "list of sessions");
        let _ = std::fs::remove_dir_all(&made);
        let pid = Session::from_pid();
        ensure_eq!(
            pid.mode,
            ConnectionMode::Socket(root.join(std::process::id().to_string())),
            "pid session",
            "session of this process"
        );
        Ok(())
    }
}
