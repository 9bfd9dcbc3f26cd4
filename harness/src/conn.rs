//! C17: the state of a client connection against a fake server.

use crate::engine::*;
use crate::proto::{garbage, jid, json_value, named, strings};
use crate::{ensure, ensure_eq};
use ced_remote::protocol::{Key, KeyEvent};
use ced_remote::{Connection, ConnectionEvent, ConnectionMode, Session};
use futures_lite::{future, StreamExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixListener;
use std::time::Duration;

pub type Frag = (String, u8);
pub type Txt = Vec<Frag>;

pub const FACES: [&str; 5] = ["Default", "Error", "Match", "Prompt", "Selection"];

pub fn text_json(t: &Txt) -> Value {
    Value::Array(
        t.iter()
            .map(|(s, f)| json!({"text": s, "face": FACES[*f as usize % 5]}))
            .collect(),
    )
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct MenuLine {
    pub command: String,
    pub title: String,
    pub search: String,
    /// value, text, description
    pub entries: Vec<(String, Txt, Option<String>)>,
}

impl MenuLine {
    pub fn json(&self) -> Value {
        json!({
            "command": self.command, "title": self.title, "search": self.search,
            "entries": self.entries_json(),
        })
    }
    fn entries_json(&self) -> Value {
        Value::Array(
            self.entries
                .iter()
                .map(|(v, t, d)| json!({"value": v, "text": text_json(t), "description": d}))
                .collect(),
        )
    }
}

/// buffer, start, end, lenses (first line number, lines)
pub type ViewItemLine = (String, u32, u32, Vec<(u32, Vec<Txt>)>);

pub fn view_json(v: &[ViewItemLine]) -> Value {
    Value::Array(
        v.iter()
            .map(|(b, s, e, lenses)| {
                json!({"buffer": b, "start": s, "end": e, "lenses": lenses.iter().map(|(n, lines)| {
                    json!({"first_line_num": n, "lines": lines.iter().map(text_json).collect::<Vec<_>>()})
                }).collect::<Vec<_>>()})
            })
            .collect(),
    )
}

pub fn status_json(s: &[(i32, Txt)]) -> Value {
    Value::Array(s.iter().map(|(i, t)| json!({"index": i, "text": text_json(t)})).collect())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum SrvLine {
    Echo(Txt),
    Hint(Vec<Txt>),
    Info(String, String, String),
    Menu(MenuLine),
    Status(Vec<(i32, Txt)>),
    View(Vec<ViewItemLine>),
    /// a notification nobody knows
    Unknown(String, #[serde(with = "crate::gen::optional")] Option<Value>),
    /// a known notification with parameters of the wrong type (or none)
    IllTyped(u8, u8),
    /// a response: id, result or error
    Response(i32, Result<Value, (i32, String)>),
    Garbage(String),
    NotUtf8(Vec<u8>),
}

pub const KNOWN: [&str; 6] = ["echo", "hint", "info", "menu", "status", "view"];

fn bad_params(method: &str, k: u8) -> Value {
    let mut all = vec![
        json!(null),
        json!(12),
        json!("x"),
        json!(true),
        json!({"a": 1}),
        json!([1]),
        json!([[1]]),
        json!([{"text": 1, "face": "Default"}]),
        json!([{"text": "a", "face": "Nope"}]),
        json!([{"index": "a", "text": []}]),
        json!([{"buffer": "b", "start": -1, "end": 2, "lenses": []}]),
        json!({"client": 1, "session": "", "cwd": ""}),
        json!({"command": "", "title": "", "search": ""}),
        json!({"command": "", "title": "", "search": "", "entries": [{"value": "a"}]}),
        json!({"text": "x"}),
    ];
    if method == "status" || method == "view" || method == "echo" {
        all.retain(|v| *v != json!([]));
    }
    all[k as usize % all.len()].clone()
}

impl SrvLine {
    pub fn bytes(&self) -> Vec<u8> {
        let n = |m: &str, p: Value| json!({"jsonrpc": "2.0", "method": m, "params": p}).to_string().into_bytes();
        match self {
            SrvLine::Echo(t) => n("echo", text_json(t)),
            SrvLine::Hint(ls) => n("hint", json!({"text": ls.iter().map(text_json).collect::<Vec<_>>()})),
            SrvLine::Info(c, s, d) => n("info", json!({"client": c, "session": s, "cwd": d})),
            SrvLine::Menu(m) => n("menu", m.json()),
            SrvLine::Status(s) => n("status", status_json(s)),
            SrvLine::View(v) => n("view", view_json(v)),
            SrvLine::Unknown(m, None) => json!({"jsonrpc": "2.0", "method": m}).to_string().into_bytes(),
            SrvLine::Unknown(m, Some(p)) => n(m, p.clone()),
            SrvLine::IllTyped(m, k) => {
                let m = KNOWN[*m as usize % 6];
                if *k == 255 {
                    json!({"jsonrpc": "2.0", "method": m}).to_string().into_bytes()
                } else {
                    n(m, bad_params(m, *k))
                }
            }
            SrvLine::Response(id, Ok(v)) => {
                json!({"jsonrpc": "2.0", "id": id, "result": v}).to_string().into_bytes()
            }
            SrvLine::Response(id, Err((c, m))) => {
                json!({"jsonrpc": "2.0", "id": id, "error": {"code": c, "message": m, "data": null}})
                    .to_string()
                    .into_bytes()
            }
            SrvLine::Garbage(s) => s.clone().into_bytes(),
            SrvLine::NotUtf8(b) => b.clone(),
        }
    }
}

pub fn txt() -> BoxedStrategy<Txt> {
    prop::collection::vec((strings(), 0u8..5), 0..4).boxed()
}

pub fn menu_line() -> BoxedStrategy<MenuLine> {
    let value = prop_oneof![1 => Just(String::new()), 4 => "[a-c]{1,2}", 1 => strings()];
    (
        strings(),
        strings(),
        strings(),
        prop_oneof![
            30 => crate::gen::few((value.clone(), txt(), prop::option::of(strings())), 0..5, 9..40),
            // menus longer than any screen
            1 => (prop::collection::vec((value, txt(), prop::option::of(strings())), 1..5), 100usize..400)
                .prop_map(|(v, n)| v.into_iter().cycle().take(n).enumerate()
                    .map(|(i, (a, b, c))| (format!("{}{}", a, i), b, c)).collect()),
        ],
    )
        .prop_map(|(command, title, search, entries)| MenuLine { command, title, search, entries })
        .boxed()
}

pub fn view_line() -> BoxedStrategy<Vec<ViewItemLine>> {
    let lens = (0u32..2000, crate::gen::few(txt(), 0..4, 30..70));
    crate::gen::few((strings(), 0u32..2000, 0u32..2000, prop::collection::vec(lens, 0..3)), 0..3, 9..20)
}

pub fn srv_line() -> BoxedStrategy<SrvLine> {
    prop_oneof![
        3 => txt().prop_map(SrvLine::Echo),
        2 => crate::gen::few(txt(), 0..4, 9..20).prop_map(SrvLine::Hint),
        2 => (strings(), strings(), strings()).prop_map(|(a, b, c)| SrvLine::Info(a, b, c)),
        5 => menu_line().prop_map(SrvLine::Menu),
        3 => crate::gen::few((any::<i32>(), txt()), 0..4, 9..20).prop_map(SrvLine::Status),
        3 => view_line().prop_map(SrvLine::View),
        1 => (strings().prop_filter("unknown", |s| !KNOWN.contains(&s.as_str())), prop::option::of(json_value()))
            .prop_map(|(a, b)| SrvLine::Unknown(a, b)),
        2 => (0u8..6, prop_oneof![0u8..15, Just(255)]).prop_map(|(a, b)| SrvLine::IllTyped(a, b)),
        2 => (jid(), json_value()).prop_map(|(_, v)| SrvLine::Response(3, Ok(v))),
        1 => (any::<i32>(), strings()).prop_map(|(c, m)| SrvLine::Response(c, Err((c, m)))),
        2 => garbage().prop_filter("one line", |s| !s.contains('\n')).prop_map(SrvLine::Garbage),
        1 => prop::collection::vec(prop::sample::select(vec![0xffu8, 0xc3, 0x80, b'a', b'{', 0xe2]), 0..6)
            .prop_map(|mut v| { v.push(0xff); SrvLine::NotUtf8(v) }),
    ]
    .boxed()
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum ConnOp {
    /// lines sent together, then read one by one
    Lines(Vec<SrvLine>),
    Next(u8),
    Prev(u8),
    Cancel,
    Select,
    Menu(String, String),
    Edit(String, bool),
    Exec(String),
    Keys(Vec<(u8, Result<char, u8>)>),
    Quit,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ConnCase {
    /// requests made before the connection
    before: Vec<ConnOp>,
    ops: Vec<ConnOp>,
    end: End,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum End {
    Close,
    /// in the middle of that line
    Half(SrvLine, u16),
    /// the connection is reset, in the middle of that line
    Reset(SrvLine, u16),
}

pub struct C17;

#[derive(Default)]
struct Model {
    client: String,
    session: String,
    echo: Option<Value>,
    echo_or_none: bool,
    status: Value,
    view: Value,
    menu: Option<(MenuLine, usize)>,
}

thread_local! { static N: Cell<u64> = const { Cell::new(0) }; }

fn js<T: Serialize>(v: &T) -> Value {
    serde_json::to_value(v).expect("HARNESS: to json")
}

fn one_event(m: &mut Model, line: &SrvLine, ev: &ConnectionEvent) -> Res {
    use ConnectionEvent as E;
    let wrong = |what: &str| {
        Err(Fail::new(
            "event",
            format!("{} expected for {:?}, got {:?}", what, String::from_utf8_lossy(&line.bytes()), ev),
        ))
    };
    match line {
        SrvLine::Echo(t) => {
            m.echo = Some(text_json(t));
            m.echo_or_none = false;
            match ev {
                E::Echo(x) if js(x) == text_json(t) => {}
                _ => return wrong("its message event"),
            }
        }
        SrvLine::Hint(ls) => match ev {
            E::Hint(h) if js(&h.text) == Value::Array(ls.iter().map(text_json).collect()) => {}
            _ => return wrong("its hint event"),
        },
        SrvLine::Info(c, s, _) => {
            m.client = c.clone();
            m.session = s.clone();
            match ev {
                E::Info(a, b) if a == c && b == s => {}
                _ => return wrong("its info event"),
            }
        }
        SrvLine::Menu(l) => {
            m.menu = Some((l.clone(), 0));
            m.echo_or_none = true;
            match ev {
                E::Menu(x)
                    if x.command == l.command
                        && x.title == l.title
                        && x.search == l.search
                        && js(&x.entries) == l.entries_json() => {}
                _ => return wrong("its menu event"),
            }
        }
        SrvLine::Status(s) => {
            m.status = status_json(s);
            match ev {
                E::Status(x) if js(x) == m.status => {}
                _ => return wrong("its status event"),
            }
        }
        SrvLine::View(v) => {
            m.view = view_json(v);
            match ev {
                E::View(x) if js(x) == m.view => {}
                _ => return wrong("its view event"),
            }
        }
        SrvLine::Unknown(..) | SrvLine::IllTyped(..) | SrvLine::Response(..) => match ev {
            E::Noop => {}
            // an ill-typed message may also be reported as an error
            E::ConnErr(_) if matches!(line, SrvLine::IllTyped(..)) => {}
            _ => return wrong("a no-op event"),
        },
        SrvLine::Garbage(_) | SrvLine::NotUtf8(_) => match ev {
            E::ConnErr(_) => {}
            _ => return wrong("an error event"),
        },
    }
    Ok(())
}

fn state_is(conn: &Connection, m: &Model, when: &str) -> Res {
    let s = conn.state();
    ensure_eq!(s.client, m.client, "state", "client {}", when);
    ensure_eq!(s.session, m.session, "state", "session {}", when);
    let echo = s.echo.as_ref().map(js);
    if !(m.echo_or_none && echo.is_none()) {
        ensure_eq!(echo, m.echo, "state", "message {}", when);
    }
    ensure_eq!(js(&s.status), m.status, "state", "status {}", when);
    ensure_eq!(js(&s.view), m.view, "state", "view {}", when);
    match (&s.menu, &m.menu) {
        (None, None) => {}
        (Some(a), Some((l, sel))) => {
            ensure_eq!(
                json!({"command": a.command, "title": a.title, "search": a.search, "entries": js(&a.entries)}),
                l.json(),
                "state",
                "menu {}",
                when
            );
            ensure_eq!(a.selected, *sel, "menu selection", "selected entry {}", when);
            ensure!(
                a.selected < l.entries.len() || (l.entries.is_empty() && a.selected == 0),
                "menu selection",
                "entry {} selected out of {} {}",
                a.selected,
                l.entries.len(),
                when
            );
        }
        (a, b) => return Err(Fail::new("state", format!("menu {}: {:?}, expected {:?}", when, a, b))),
    }
    Ok(())
}

fn key_event(m: u8, k: &Result<char, u8>) -> KeyEvent {
    KeyEvent {
        ctrl: m & 1 != 0,
        alt: m & 2 != 0,
        shift: m & 4 != 0,
        key: match k {
            Ok(c) => Key::Char(*c),
            Err(n) => named(*n),
        },
    }
}

impl Prop for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "a fake server on a Unix socket sends generated batches of lines (every kind of notification, ill-typed and unknown ones, responses, malformed and non UTF-8 lines) between client operations (moves in the menu, choosing, cancelling, and every request), up to 25 steps, with up to 300 requests made before connecting, and an end which may be a reset or in the middle of a line. Oracle: a model of the connection; one event per line in order, the whole exposed state compared after each line and operation, every request line read back by the server and compared, request ids strictly increasing. Non-trivial: a menu received and a selection moved, chosen or cancelled, or a malformed line in the middle of others.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the last message may be forgotten when a menu is shown",
        "choosing in a menu without entry sends nothing",
    ];
    type Case = ConnCase;
    fn cases(tier: Tier) -> u64 {
        tier.pick(20_000, 200_000)
    }
    const SHRINK_STEPS: u32 = 1500;
    fn strategy(_tier: Tier) -> BoxedStrategy<ConnCase> {
        let op = prop_oneof![
            8 => prop::collection::vec(srv_line(), 1..5).prop_map(ConnOp::Lines),
            3 => (1u8..6).prop_map(ConnOp::Next),
            2 => (1u8..6).prop_map(ConnOp::Prev),
            1 => (prop_oneof![3 => 6u8..60, 1 => 60u8..=255], any::<bool>()).prop_map(|(n, next)| if next { ConnOp::Next(n) } else { ConnOp::Prev(n) }),
            1 => Just(ConnOp::Cancel),
            3 => Just(ConnOp::Select),
            1 => (strings(), strings()).prop_map(|(a, b)| ConnOp::Menu(a, b)),
            1 => (strings(), any::<bool>()).prop_map(|(a, b)| ConnOp::Edit(a, b)),
            1 => strings().prop_map(ConnOp::Exec),
            1 => prop::collection::vec((0u8..8, prop_oneof![any::<char>().prop_map(Ok), (0u8..7).prop_map(Err)]), 0..4)
                .prop_map(ConnOp::Keys),
            1 => Just(ConnOp::Quit),
        ];
        let early = prop_oneof![
            2 => (strings(), any::<bool>()).prop_map(|(a, b)| ConnOp::Edit(a, b)),
            1 => (strings(), strings()).prop_map(|(a, b)| ConnOp::Menu(a, b)),
            1 => strings().prop_map(ConnOp::Exec),
            1 => Just(ConnOp::Select),
            1 => Just(ConnOp::Cancel),
            1 => Just(ConnOp::Next(1)),
        ];
        let before = prop_oneof![
            3 => Just(Vec::new()),
            2 => prop::collection::vec(early.clone(), 1..5),
            1 => prop::collection::vec(early, 100..300),
        ];
        let end = prop_oneof![
            2 => Just(End::Close),
            1 => (srv_line(), any::<u16>()).prop_map(|(l, n)| End::Half(l, n)),
            1 => (srv_line(), any::<u16>()).prop_map(|(l, n)| End::Reset(l, n)),
        ];
        (before, prop::collection::vec(op, 1..25), end)
            .prop_map(|(before, ops, end)| ConnCase { before, ops, end })
            .boxed()
    }
    fn check(case: &ConnCase, cov: &mut Cov) -> Res {
        let n = N.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        let path = std::env::temp_dir().join(format!("s{}", n));
        let _ = std::fs::remove_file(&path);
        let listener = UnixListener::bind(&path).expect("HARNESS: bind");
        let mut conn = Connection::new(Session { mode: ConnectionMode::Socket(path.clone()) });
        for op in &case.before {
            match op {
                ConnOp::Edit(name, scratch) => conn.edit(name.clone(), *scratch),
                ConnOp::Menu(c, s) => conn.menu(c, s),
                ConnOp::Exec(s) => conn.exec(s),
                ConnOp::Select => conn.menu_select(),
                ConnOp::Cancel => conn.action_menu_cancel(),
                _ => conn.action_menu_select_next(),
            }
        }
        let (mut events, request_loop) = future::block_on(conn.connect()).expect("HARNESS: connect");
        let _ = std::fs::remove_file(&path);
        let sender = std::thread::spawn(move || future::block_on(request_loop));
        let (mut server, _) = listener.accept().expect("HARNESS: accept");
        server.set_read_timeout(Some(Duration::from_secs(20))).expect("HARNESS: timeout");
        let mut reader = BufReader::new(server.try_clone().expect("HARNESS: clone"));
        let mut last_id: Option<i64> = None;
        let mut request = |method: &str, params: Value| -> Res {
            let mut line = String::new();
            reader
                .read_line(&mut line)
                .map_err(|e| Fail::new("request", format!("no request sent for {}: {}", method, e)))?;
            let v: Value = serde_json::from_str(&line)
                .map_err(|e| Fail::new("request", format!("bad request {:?}: {}", line, e)))?;
            ensure_eq!(v["method"], json!(method), "request", "method of {:?}", line);
            ensure_eq!(v["params"], params, "request", "parameters of {:?}", line);
            ensure_eq!(v["jsonrpc"], json!("2.0"), "request", "version of {:?}", line);
            let id = v["id"].as_i64();
            ensure!(
                id.is_some() && id > last_id,
                "request id",
                "id of {:?} after {:?}",
                line,
                last_id
            );
            last_id = id;
            Ok(())
        };
        let mut m = Model { status: json!([]), view: json!([]), ..Model::default() };
        state_is(&conn, &m, "at first")?;
        for op in &case.before {
            match op {
                ConnOp::Edit(name, scratch) => request("edit", json!({"name": name, "scratch": scratch}))?,
                ConnOp::Menu(c, s) => request("menu", json!({"command": c, "search": s}))?,
                ConnOp::Exec(s) => request("exec", json!(s))?,
                _ => continue,
            }
            cov.hit("request made before connecting");
        }
        for (step, op) in case.ops.iter().enumerate() {
            let mut when = format!("after step {}", step);
            match op {
                ConnOp::Lines(lines) => {
                    let mut all = Vec::new();
                    for l in lines {
                        all.extend(l.bytes());
                        all.push(b'\n');
                    }
                    // more than the socket takes is written while the client reads
                    let at_once = all.len().min(50_000);
                    server.write_all(&all[..at_once]).expect("HARNESS: write");
                    let rest = all.split_off(at_once);
                    if !rest.is_empty() {
                        cov.hit("more than the socket takes");
                        let mut server = server.try_clone().expect("HARNESS: clone");
                        // an error is the client's: it shows in the events
                        std::thread::spawn(move || server.write_all(&rest));
                    }
                    for (i, l) in lines.iter().enumerate() {
                        let ev = future::block_on(events.next()).ok_or_else(|| {
                            Fail::new("event", format!("the events ended at {:?}", String::from_utf8_lossy(&l.bytes())))
                        })?;
                        one_event(&mut m, l, &ev)?;
                        when = format!("after line {} of step {}", i, step);
                        state_is(&conn, &m, &when)?;
                        let bad = matches!(l, SrvLine::Garbage(_) | SrvLine::NotUtf8(_) | SrvLine::IllTyped(..));
                        cov.mark_if(bad && i + 1 < lines.len(), "malformed line followed by others");
                    }
                }
                ConnOp::Next(k) => {
                    for _ in 0..*k {
                        conn.action_menu_select_next();
                        if let Some((l, sel)) = &mut m.menu {
                            if *sel + 1 < l.entries.len() {
                                *sel += 1;
                                cov.mark("selection moved");
                            } else {
                                cov.hit("selection at the end");
                            }
                        }
                    }
                }
                ConnOp::Prev(k) => {
                    for _ in 0..*k {
                        conn.action_menu_select_previous();
                        if let Some((_, sel)) = &mut m.menu {
                            *sel = sel.saturating_sub(1);
                        }
                    }
                }
                ConnOp::Cancel => {
                    conn.action_menu_cancel();
                    cov.mark_if(m.menu.is_some(), "menu cancelled");
                    m.menu = None;
                }
                ConnOp::Select => {
                    conn.menu_select();
                    match m.menu.take() {
                        Some((l, sel)) if !l.entries.is_empty() => {
                            let v = &l.entries[sel].0;
                            cov.mark(if v.is_empty() { "prompt chosen" } else { "entry chosen" });
                            let choice = if v.is_empty() { &l.search } else { v };
                            request("menu-select", json!({"command": l.command, "choice": choice}))?;
                        }
                        Some(old) => {
                            cov.mark("chosen in an empty menu");
                            // shown or not, it stays empty
                            if conn.state().menu.is_some() {
                                m.menu = Some(old);
                            }
                        }
                        None => cov.hit("chosen without menu"),
                    }
                }
                ConnOp::Menu(c, s) => {
                    conn.menu(c, s);
                    request("menu", json!({"command": c, "search": s}))?;
                }
                ConnOp::Edit(name, scratch) => {
                    conn.edit(name.clone(), *scratch);
                    request("edit", json!({"name": name, "scratch": scratch}))?;
                }
                ConnOp::Exec(s) => {
                    conn.exec(s);
                    request("exec", json!(s))?;
                }
                ConnOp::Keys(ks) => {
                    conn.keys(ks.iter().map(|(m, k)| key_event(*m, k)).collect::<Vec<_>>());
                    let want: Vec<Value> = ks
                        .iter()
                        .map(|(m, k)| {
                            let key = match k {
                                Ok(c) => json!({"Char": c}),
                                Err(n) => json!(format!("{:?}", named(*n))),
                            };
                            json!({"ctrl": m & 1 != 0, "alt": m & 2 != 0, "shift": m & 4 != 0, "key": key})
                        })
                        .collect();
                    request("keys", json!(want))?;
                }
                ConnOp::Quit => {
                    conn.quit();
                    request("quit", Value::Null)?;
                }
            }
            state_is(&conn, &m, &when)?;
        }
        // nothing else was sent
        conn.exec("end");
        request("exec", json!("end"))?;
        let (half, reset) = match &case.end {
            End::Close => (None, false),
            End::Half(l, n) => (Some((l.bytes(), *n)), false),
            End::Reset(l, n) => (Some((l.bytes(), *n)), true),
        };
        let mut some = false;
        if let Some((line, n)) = half {
            let cut = n as usize % line.len().max(1);
            some = cut > 0;
            server.write_all(&line[..cut]).expect("HARNESS: write");
            cov.hit(if reset { "reset in the middle of a line" } else { "closed in the middle of a line" });
        }
        if reset {
            // what is left unread makes it a reset
            conn.exec("lost");
            let mut b = [0];
            let _ = std::io::Read::read(&mut server, &mut b);
        }
        drop(conn);
        drop(server);
        drop(reader);
        ensure!(
            sender.join().is_ok(),
            "request loop",
            "the loop sending the requests panicked"
        );
        // the line which was cut, the lost connection
        let allowed = usize::from(some) + usize::from(reset);
        for _ in 0..allowed {
            match future::block_on(events.next()) {
                None | Some(ConnectionEvent::ConnErr(_)) => {}
                Some(_) if some => {}
                Some(ev) => return Err(Fail::new("event", format!("{:?} after the end of the connection", ev))),
            }
        }
        ensure!(future::block_on(events.next()).is_none(), "event", "an event after the end of the connection");
        Ok(())
    }
}
