//! C24: the program behind pipes: standalone, json, script and daemon modes,
//! and the list of sessions.

use crate::conn::{srv_line, SrvLine};
use crate::engine::*;
use crate::gen::line as text_line;
use crate::proto::{garbage, jid, json_value, strings, JId};
use crate::server::{bin, Proc, PATIENCE};
use crate::{ensure, ensure_eq};
use ced::editor::Editor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{ChildStdin, Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ----------------------------------------------------------------------- cases

/// one line given to the standard input
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum In {
    Edit(String, bool),
    View(String),
    ViewAdd(String),
    ViewDelete,
    Menu(String, String),
    Choose(String, String),
    Keys(String),
    /// that many messages at once
    Messages(u16),
    Exec(String),
    Quit,
    Request(JId, String, #[serde(with = "crate::gen::optional")] Option<Value>),
    Garbage(String),
    NotUtf8(Vec<u8>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum JStep {
    /// lines of the server, in so many writes
    Server(Vec<SrvLine>, u8),
    Client(Vec<In>, u8),
    /// the standard input ends
    Eof,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    Syntax,
    Error,
    UnknownClient,
    BadArguments,
    Edit,
    NotUtf8,
    Missing,
    Directory,
}

const FAULTS: [Fault; 8] = [
    Fault::Syntax,
    Fault::Error,
    Fault::UnknownClient,
    Fault::BadArguments,
    Fault::Edit,
    Fault::NotUtf8,
    Fault::Missing,
    Fault::Directory,
];

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Case {
    Standalone {
        /// content, or no such file
        files: Vec<Option<String>>,
        lines: Vec<In>,
        crlf: bool,
        /// the last line has no newline
        unended: bool,
        cuts: u8,
    },
    Json {
        tcp: bool,
        name: u8,
        steps: Vec<JStep>,
    },
    Script {
        /// from the standard input, fault
        scripts: Vec<(bool, Fault)>,
    },
    /// names of the sessions started; which are listed
    Sessions {
        names: Vec<u8>,
        daemon: bool,
        requests: u8,
    },
}

fn input() -> BoxedStrategy<In> {
    prop_oneof![
        4 => (prop_oneof![4 => "[ab]", 2 => Just("f0".to_string()), 1 => strings()], prop::bool::weighted(0.7))
            .prop_map(|(n, s)| In::Edit(n, s)),
        2 => prop_oneof![Just("a".to_string()), Just("*debug*".to_string()), strings()].prop_map(In::View),
        2 => prop_oneof![Just("b".to_string()), Just("*scratch*".to_string()), strings()].prop_map(In::ViewAdd),
        1 => Just(In::ViewDelete),
        2 => (prop::sample::select(vec!["", "open", "view_select", "buffer_select", "nope"]), strings())
            .prop_map(|(c, s)| In::Menu(c.into(), s)),
        1 => (prop::sample::select(vec!["", "open", "view_select"]), strings())
            .prop_map(|(c, s)| In::Choose(c.into(), s)),
        3 => text_line(6).prop_map(In::Keys),
        1 => (0u16..600).prop_map(In::Messages),
        1 => prop_oneof![
            Just("error('x')".to_string()), Just("(".to_string()), strings(),
            Just("editor:scratch(1, 's', 'l1\\nl2')".to_string()),
        ].prop_map(In::Exec),
        1 => Just(In::Quit),
        3 => (jid(), strings(), prop::option::of(json_value())).prop_map(|(i, m, p)| In::Request(i, m, p)),
        2 => garbage().prop_filter("one line", |s| !s.contains('\n')).prop_map(In::Garbage),
        1 => prop::collection::vec(prop::sample::select(vec![0xffu8, 0xc3, 0x80, b'a', b'{', 0xe2]), 0..6)
            .prop_map(|mut v| { v.push(0xff); In::NotUtf8(v) }),
    ]
    .boxed()
}

const NAMES: [&str; 6] = ["s", "42", "é 'x\"", "a.b", "@x", "@"];

impl In {
    fn bytes(&self, n: usize) -> Vec<u8> {
        let rq = |m: &str, p: Value| json!({"jsonrpc": "2.0", "id": n, "method": m, "params": p}).to_string().into_bytes();
        let bare = |m: &str| json!({"jsonrpc": "2.0", "id": n, "method": m}).to_string().into_bytes();
        match self {
            In::Edit(name, s) => rq("edit", json!({"name": name, "scratch": s})),
            In::View(v) => rq("view", json!(v)),
            In::ViewAdd(b) => rq("view-add", json!(b)),
            In::ViewDelete => bare("view-delete"),
            In::Menu(c, s) => rq("menu", json!({"command": c, "search": s})),
            In::Choose(c, s) => rq("menu-select", json!({"command": c, "choice": s})),
            In::Keys(t) => rq(
                "keys",
                t.chars()
                    .map(|c| json!({"ctrl": false, "alt": false, "shift": false, "key": {"Char": c}}))
                    .collect(),
            ),
            In::Messages(k) => rq("exec", json!(format!("for i = 1, {} do editor:message(1, 'm' .. i) end", k))),
            In::Exec(s) => rq("exec", json!(s)),
            In::Quit => bare("quit"),
            In::Request(id, m, p) => {
                let mut v = json!({"jsonrpc": "2.0", "id": id.json(), "method": m});
                if let Some(p) = p {
                    v["params"] = p.clone();
                }
                v.to_string().into_bytes()
            }
            In::Garbage(s) => s.clone().into_bytes(),
            In::NotUtf8(b) => b.clone(),
        }
    }
    fn is_request(&self) -> bool {
        !matches!(self, In::Garbage(_) | In::NotUtf8(_))
    }
}

// ------------------------------------------------------------------- processes

/// kills a whole process group when dropped
pub struct Group(pub Proc);

impl Drop for Group {
    fn drop(&mut self) {
        unsafe {
            libc::kill(-(self.0 .0.id() as i32), libc::SIGKILL);
        }
    }
}

#[derive(Default)]
pub struct Gathered {
    pub lines: Vec<Vec<u8>>,
    pub rest: Vec<u8>,
    pub eof: bool,
}

/// the lines of a stream, gathered by a thread
#[derive(Clone)]
pub struct Lines(Arc<(Mutex<Gathered>, Condvar)>);

impl Lines {
    pub fn start(mut r: impl Read + Send + 'static) -> Lines {
        let shared: Arc<(Mutex<Gathered>, Condvar)> = Default::default();
        let mine = shared.clone();
        std::thread::spawn(move || {
            let mut buf = [0u8; 65536];
            loop {
                let n = r.read(&mut buf).unwrap_or(0);
                let mut g = mine.0.lock().unwrap();
                if n == 0 {
                    g.eof = true;
                    mine.1.notify_all();
                    return;
                }
                g.rest.extend_from_slice(&buf[..n]);
                while let Some(i) = g.rest.iter().position(|b| *b == b'\n') {
                    let mut l: Vec<u8> = g.rest.drain(..=i).collect();
                    l.pop();
                    g.lines.push(l);
                }
                mine.1.notify_all();
            }
        });
        Lines(shared)
    }

    pub fn wait<T>(&self, d: Duration, mut f: impl FnMut(&Gathered) -> Option<T>) -> Option<T> {
        let end = Instant::now() + d;
        let mut g = self.0 .0.lock().unwrap();
        loop {
            if let Some(t) = f(&g) {
                return Some(t);
            }
            let now = Instant::now();
            if now >= end {
                return None;
            }
            g = self.0 .1.wait_timeout(g, end - now).unwrap().0;
        }
    }

    pub fn show(&self) -> String {
        let g = self.0 .0.lock().unwrap();
        let mut v: Vec<String> = g.lines.iter().map(|l| short(&String::from_utf8_lossy(l))).collect();
        if !g.rest.is_empty() {
            v.push(format!("UNENDED {}", short(&String::from_utf8_lossy(&g.rest))));
        }
        let skip = v.len().saturating_sub(6);
        v[skip..].join(" | ")
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 200 {
        s.chars().take(200).chain("…".chars()).collect()
    } else {
        s.to_owned()
    }
}

struct Child {
    group: Group,
    stdin: Option<ChildStdin>,
    out: Lines,
    err: Lines,
}

fn command(dir: &Path, args: &[&str]) -> Command {
    let mut c = Command::new(bin("ced"));
    c.args(args);
    surroundings(&mut c, dir);
    c.process_group(0);
    c
}

pub fn surroundings(c: &mut Command, dir: &Path) {
    c.current_dir(dir.join("cwd"))
        .env("TMPDIR", dir)
        .env("USER", "u")
        .env("HOME", dir)
        .env_remove("CED_BIN")
        .env_remove("CED_FWSTDERR")
        .env_remove("RUST_LOG")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
}

fn spawn(c: &mut Command) -> Child {
    let mut group = Group(Proc::spawn(c));
    let stdin = group.0 .0.stdin.take();
    let out = Lines::start(group.0 .0.stdout.take().expect("HARNESS: stdout"));
    let err = Lines::start(group.0 .0.stderr.take().expect("HARNESS: stderr"));
    Child { group, stdin, out, err }
}

impl Child {
    fn fail<T>(&mut self, sig: &str, msg: String) -> Result<T, Fail> {
        let state = match self.group.0 .0.try_wait() {
            Ok(Some(s)) => format!("ended: {}", s),
            _ => "running".into(),
        };
        Err(Fail::new(
            sig,
            format!("{}; the program is {}; printed {}; errors {}", msg, state, self.out.show(), self.err.show()),
        ))
    }

    fn exited(&mut self) -> Result<i32, Fail> {
        match self.group.0.wait(PATIENCE) {
            Some(s) => {
                // what it printed is there before it ends
                let eof = self.out.wait(PATIENCE, |g| if g.eof { Some(()) } else { None });
                if eof.is_none() {
                    return self.fail("output", "the standard output stays open".into());
                }
                match s.code() {
                    Some(c) => Ok(c),
                    None => self.fail("exit", format!("killed: {}", s)),
                }
            }
            None => self.fail("exit", "the program does not end".into()),
        }
    }
}

/// writes and closes, in a thread of its own: the program may not read all
fn feed(stdin: ChildStdin, bytes: Vec<u8>, cuts: u8) {
    let mut stdin = stdin;
    std::thread::spawn(move || {
        write_cut(&mut stdin, &bytes, cuts);
    });
}

pub fn write_cut(w: &mut impl Write, bytes: &[u8], cuts: u8) {
    let size = bytes.len() / (cuts as usize + 1) + 1;
    for (k, part) in bytes.chunks(size).enumerate() {
        if k > 0 {
            std::thread::sleep(Duration::from_millis(1));
        }
        if w.write_all(part).is_err() {
            return;
        }
        let _ = w.flush();
    }
}

thread_local! { static N: Cell<u64> = const { Cell::new(0) }; }

/// a directory holding the sessions, and `cwd`
pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        let n = N.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        let d = std::env::temp_dir().join(format!("p{}", n));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("cwd")).expect("HARNESS: make a directory");
        Dir(d)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------ standalone

#[derive(Serialize, Deserialize, Default)]
struct Told {
    /// answers, none for a line which is no text
    answers: Vec<Option<Value>>,
    notes: Vec<Value>,
    /// how many notifications were sent before each line was read
    before: Vec<usize>,
}

/// runs the editor as the standalone mode should, with the arguments of this
/// process, which stands in the program's place
pub fn oracle(path: &str) {
    let args: Vec<String> = std::env::args().skip(3).collect();
    let (tx, rx) = async_channel::unbounded();
    let mut editor = Editor::new("", tx);
    let mut told = Told::default();
    editor.add_client(1);
    for name in args {
        let rq = json!({"jsonrpc": "2.0", "id": 1, "method": "edit", "params": {"name": name, "scratch": false}});
        let _ = editor.handle(1, &rq.to_string());
    }
    let mut input = Vec::new();
    std::io::stdin().read_to_end(&mut input).expect("HARNESS: read the input");
    let ended = input.last() == Some(&b'\n');
    if ended {
        input.pop();
    } else if input.is_empty() {
        input = vec![0xff];
    }
    let mut drain = |told: &mut Told| {
        while let Ok(bm) = rx.try_recv() {
            if bm.should_notify(1) {
                told.notes.push(serde_json::from_str(&bm.message.to_string()).expect("HARNESS: a notification"));
            }
        }
    };
    let count = input.iter().filter(|b| **b == b'\n').count() + usize::from(ended);
    for (i, l) in input.split(|b| *b == b'\n').enumerate() {
        drain(&mut told);
        told.before.push(told.notes.len());
        let cr = if i < count { &b"\r"[..] } else { &b""[..] };
        let l = l.strip_suffix(cr).unwrap_or(l);
        told.answers.push(match std::str::from_utf8(l) {
            Ok(l) => match editor.handle(1, l) {
                Ok(r) => Some(serde_json::from_str(&r.to_string()).expect("HARNESS: a response")),
                Err(_) => None,
            },
            Err(_) => None,
        });
    }
    editor.remove_client(1);
    drain(&mut told);
    std::fs::write(path, serde_json::to_vec(&told).unwrap()).expect("HARNESS: write what was told");
}

fn standalone(
    files: &[Option<String>],
    lines: &[In],
    crlf: bool,
    unended: bool,
    cuts: u8,
    cov: &mut Cov,
) -> Res {
    let dir = Dir::new();
    let names: Vec<String> = (0..files.len()).map(|i| format!("f{}", i)).collect();
    for (n, f) in names.iter().zip(files) {
        if let Some(t) = f {
            std::fs::write(dir.0.join("cwd").join(n), t).expect("HARNESS: write a file");
        }
    }
    let mut bytes = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        bytes.extend(l.bytes(i));
        if !(unended && i + 1 == lines.len()) {
            if crlf {
                bytes.push(b'\r');
            }
            bytes.push(b'\n');
        }
    }
    let mut args = vec!["-m", "standalone"];
    args.extend(names.iter().map(String::as_str));
    let told_at = dir.0.join("told");
    let mut c = Command::new(std::env::current_exe().expect("HARNESS: where am I"));
    c.arg0(bin("ced")).args(&args).env("CED_VERIF_ORACLE", &told_at);
    surroundings(&mut c, &dir.0);
    c.process_group(0);
    let mut other = spawn(&mut c);
    let mut p = spawn(&mut command(&dir.0, &args));
    feed(other.stdin.take().unwrap(), bytes.clone(), 0);
    feed(p.stdin.take().unwrap(), bytes, cuts);
    if other.exited()? != 0 {
        // the editor itself fails: not this check's business, unless only here
        cov.hit("editor failing");
        cov.inconclusive = true;
        return Ok(());
    }
    let told: Told = serde_json::from_slice(&std::fs::read(&told_at).expect("HARNESS: what was told"))
        .expect("HARNESS: parse what was told");
    let code = p.exited()?;
    if code != 0 {
        return p.fail("exit", format!("exit code {}", code));
    }
    let (out, rest) = p.out.wait(PATIENCE, |g| Some((g.lines.clone(), g.rest.clone()))).unwrap();
    ensure!(rest.is_empty(), "line", "output not ended by a newline: {:?}", String::from_utf8_lossy(&rest));
    let owed: Vec<&Value> = told.answers.iter().flatten().collect();
    let mut notes = 0;
    let mut answer = 0;
    for l in &out {
        let v: Value = serde_json::from_slice(l)
            .map_err(|e| Fail::new("line", format!("{}: {:?}", e, short(&String::from_utf8_lossy(l)))))?;
        if v.get("method").is_some() {
            ensure!(notes < told.notes.len(), "notification", "sent more notifications than made: {}", short(&v.to_string()));
            ensure_eq!(v, told.notes[notes], "notification", "notification {}", notes);
            // only after the answers to the lines before the one that caused it
            let cause = told.before.iter().position(|n| *n > notes).unwrap_or(told.before.len());
            let earlier = told.answers[..cause.saturating_sub(1)].iter().flatten().count();
            ensure!(
                answer >= earlier,
                "order",
                "notification {} printed after {} answers out of the {} to earlier lines",
                notes,
                answer,
                earlier
            );
            notes += 1;
        } else {
            ensure!(answer < owed.len(), "answer", "one answer too many: {}", short(&v.to_string()));
            ensure_eq!(v, *owed[answer], "answer", "answer {}", answer);
            answer += 1;
        }
    }
    if answer < owed.len() {
        let next = short(&owed[answer].to_string());
        return p.fail("answer", format!("{} answers of {} missing, the first {}", owed.len() - answer, owed.len(), next));
    }
    if notes < told.notes.len() {
        let next = short(&told.notes[notes].to_string());
        return p.fail("notification", format!("{} notifications of {} missing, the first {}", told.notes.len() - notes, told.notes.len(), next));
    }
    cov.mark_if(told.notes.len() > 100, "standalone: more than 100 notifications");
    cov.mark_if(told.answers.len() > 3 && told.notes.len() > 5, "standalone: dialogue");
    cov.hit_if(lines.iter().any(|l| matches!(l, In::NotUtf8(_))), "standalone: a line which is no text");
    cov.hit_if(lines.iter().any(|l| matches!(l, In::Quit)), "standalone: quit");
    cov.hit_if(unended, "standalone: last line without newline");
    cov.hit_if(files.len() > 50, "standalone: many files");
    Ok(())
}

// ------------------------------------------------------------------------ json

enum Listener {
    Unix(UnixListener),
    Tcp(TcpListener),
}

enum Peer {
    Unix(UnixStream),
    Tcp(TcpStream),
}

impl Write for Peer {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Peer::Unix(s) => s.write(b),
            Peer::Tcp(s) => s.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Peer {
    fn reader(&self) -> Lines {
        match self {
            Peer::Unix(s) => Lines::start(s.try_clone().expect("HARNESS: clone")),
            Peer::Tcp(s) => Lines::start(s.try_clone().expect("HARNESS: clone")),
        }
    }
    fn close(&self) {
        let _ = match self {
            Peer::Unix(s) => s.shutdown(std::net::Shutdown::Both),
            Peer::Tcp(s) => s.shutdown(std::net::Shutdown::Both),
        };
    }
}

/// absent and null parameters or data are the same
fn same(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        if o.get("params") == Some(&Value::Null) {
            o.remove("params");
        }
        if let Some(e) = o.get_mut("error").and_then(Value::as_object_mut) {
            if e.get("data") == Some(&Value::Null) {
                e.remove("data");
            }
        }
    }
    v
}

fn relayed(lines: &Lines, want: &[Value], from: usize, what: &str, p: &mut Child) -> Res {
    let got = lines.wait(PATIENCE, |g| if g.lines.len() >= want.len() || g.eof { Some(g.lines.clone()) } else { None });
    let got = got.unwrap_or_else(|| lines.wait(PATIENCE, |g| Some(g.lines.clone())).unwrap());
    for (i, w) in want.iter().enumerate().skip(from) {
        let Some(l) = got.get(i) else {
            let m = format!("{} {} of {} is missing: {}", what, i, want.len(), short(&w.to_string()));
            return p.fail(what, m);
        };
        let v: Value = match serde_json::from_slice(l) {
            Ok(v) => v,
            Err(e) => return p.fail(what, format!("{} {}: {}: {:?}", what, i, e, short(&String::from_utf8_lossy(l)))),
        };
        ensure_eq!(same(v), same(w.clone()), what, "{} {}", what, i);
    }
    if got.len() > want.len() {
        let m = format!("one {} too many: {:?}", what, short(&String::from_utf8_lossy(&got[want.len()])));
        return p.fail(what, m);
    }
    Ok(())
}

fn json_mode(tcp: bool, name: u8, steps: &[JStep], cov: &mut Cov) -> Res {
    let dir = Dir::new();
    let name = NAMES[name as usize % NAMES.len()];
    let (listener, session) = if tcp {
        let l = TcpListener::bind("127.0.0.1:0").expect("HARNESS: bind");
        let s = format!("@{}", l.local_addr().expect("HARNESS: address"));
        (Listener::Tcp(l), s)
    } else {
        let d = dir.0.join("ced-u");
        std::fs::create_dir_all(&d).expect("HARNESS: make a directory");
        (Listener::Unix(UnixListener::bind(d.join(name)).expect("HARNESS: bind")), name.to_string())
    };
    let mut p = spawn(&mut command(&dir.0, &["-m", "json", "-s", &session]));
    // accepting waits: give up when the program ends or never comes
    let end = Instant::now() + PATIENCE;
    match &listener {
        Listener::Unix(l) => l.set_nonblocking(true).expect("HARNESS: non blocking"),
        Listener::Tcp(l) => l.set_nonblocking(true).expect("HARNESS: non blocking"),
    }
    let mut peer = loop {
        let r = match &listener {
            Listener::Unix(l) => l.accept().map(|(s, _)| Peer::Unix(s)),
            Listener::Tcp(l) => l.accept().map(|(s, _)| Peer::Tcp(s)),
        };
        match r {
            Ok(s) => break s,
            Err(_) if Instant::now() > end => return p.fail("connection", "no connection to the session".into()),
            Err(_) => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    match &peer {
        Peer::Unix(s) => s.set_nonblocking(false).expect("HARNESS: blocking"),
        Peer::Tcp(s) => s.set_nonblocking(false).expect("HARNESS: blocking"),
    }
    let received = peer.reader();
    let (mut requests, mut messages): (Vec<Value>, Vec<Value>) = Default::default();
    let mut bad = 0;
    for (k, s) in steps.iter().enumerate() {
        match s {
            JStep::Server(lines, cuts) => {
                let from = messages.len();
                let mut bytes = Vec::new();
                for l in lines {
                    let b = l.bytes();
                    if !matches!(l, SrvLine::Garbage(_) | SrvLine::NotUtf8(_)) {
                        messages.push(serde_json::from_slice(&b).expect("HARNESS: a message"));
                    } else {
                        bad += 1;
                    }
                    bytes.extend(b);
                    bytes.push(b'\n');
                }
                write_cut(&mut peer, &bytes, *cuts);
                relayed(&p.out.clone(), &messages, from, "message", &mut p)?;
            }
            JStep::Client(lines, cuts) => {
                let from = requests.len();
                let mut bytes = Vec::new();
                if p.stdin.is_none() {
                    continue;
                }
                for (i, l) in lines.iter().enumerate() {
                    let b = l.bytes(k * 100 + i);
                    if l.is_request() {
                        requests.push(serde_json::from_slice(&b).expect("HARNESS: a request"));
                    } else {
                        bad += 1;
                    }
                    bytes.extend(b);
                    bytes.push(b'\n');
                }
                write_cut(p.stdin.as_mut().unwrap(), &bytes, *cuts);
                relayed(&received, &requests, from, "request", &mut p)?;
            }
            JStep::Eof => {
                p.stdin = None;
                cov.hit("json: end of the input");
            }
        }
    }
    // nothing more was sent, and the program ends with its connection
    let last = json!({"jsonrpc": "2.0", "method": "last"});
    messages.push(last.clone());
    write_cut(&mut peer, format!("{}\n", last).as_bytes(), 0);
    peer.close();
    let code = p.exited()?;
    if code != 0 {
        return p.fail("exit", format!("exit code {} at the end of the connection", code));
    }
    relayed(&p.out.clone(), &messages, messages.len() - 1, "message", &mut p)?;
    let rest = p.out.wait(PATIENCE, |g| Some(g.rest.clone())).unwrap();
    ensure!(rest.is_empty(), "message", "output not ended by a newline: {:?}", String::from_utf8_lossy(&rest));
    relayed(&received, &requests, requests.len(), "request", &mut p)?;
    cov.mark_if(requests.len() > 1 && messages.len() > 2, "json: dialogue");
    cov.mark_if(bad > 0, "json: invalid lines dropped");
    cov.hit_if(tcp, "json: over TCP");
    Ok(())
}

// --------------------------------------------------------------------- scripts

fn scripts(scripts: &[(bool, Fault)], cov: &mut Cov) -> Res {
    let dir = Dir::new();
    let cwd = dir.0.join("cwd");
    let mut args = vec!["-m".to_string(), "script".to_string()];
    let mut stdin: Option<Vec<u8>> = None;
    let mut trace = String::new();
    let mut failed = false;
    for (i, (from_stdin, fault)) in scripts.iter().enumerate() {
        // all scripts share one state, which counts them
        let mut src = format!(
            "count = (count or 0) + 1\nlocal f = io.open('trace', 'a') f:write('{}:' .. count .. ':' .. env.client .. ';') f:close()\n",
            i
        );
        src.push_str("editor:message(tonumber(env.client), 'a message') editor:scratch(1, 'b', 'x')\n");
        let mut src = src.into_bytes();
        let mut runs = true;
        match fault {
            Fault::None => {}
            Fault::Syntax => {
                src.extend(b"local = (\n");
                runs = false;
            }
            Fault::Error => src.extend(b"error('oops')\n"),
            Fault::UnknownClient => src.extend(b"editor:move_left(99)\n"),
            Fault::BadArguments => src.extend(b"editor:scratch({})\n"),
            Fault::Edit => src.extend(b"editor:edit(1, '/nonexistent/file')\n"),
            Fault::NotUtf8 => {
                src.extend(b"-- \xff\xfe\n");
                runs = false;
            }
            Fault::Missing | Fault::Directory => runs = false,
        }
        let name = format!("s{}.lua", i);
        let stdin_here = *from_stdin && !matches!(fault, Fault::Missing | Fault::Directory);
        let empty = stdin_here && stdin.is_some();
        if stdin_here {
            // a second one finds nothing left to read
            if stdin.is_none() {
                stdin = Some(src);
            }
            args.push("-".into());
        } else {
            match fault {
                Fault::Missing => {}
                Fault::Directory => std::fs::create_dir(cwd.join(&name)).expect("HARNESS: make a directory"),
                _ => std::fs::write(cwd.join(&name), src).expect("HARNESS: write a script"),
            }
            args.push(name);
        }
        if failed || empty {
            continue;
        }
        if runs {
            let count = trace.matches(';').count() + 1;
            trace.push_str(&format!("{}:{}:1;", i, count));
        }
        failed = *fault != Fault::None;
    }
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let mut p = spawn(&mut command(&dir.0, &args));
    feed(p.stdin.take().unwrap(), stdin.clone().unwrap_or_default(), 1);
    let code = p.exited()?;
    if code == 101 || (code != 0) != failed {
        return p.fail("script", format!("exit code {}, a script failed: {}", code, failed));
    }
    let got = std::fs::read_to_string(cwd.join("trace")).unwrap_or_default();
    ensure_eq!(got, trace, "script", "scripts run (script:count:client)");
    if failed {
        let said = p.err.wait(PATIENCE, |g| if g.eof { Some(!g.lines.is_empty()) } else { None });
        ensure!(said == Some(true), "script", "a failing script is not reported");
    }
    cov.mark_if(failed, "script: failure");
    cov.mark_if(scripts.len() > 1, "script: several");
    cov.mark_if(stdin.is_some(), "script: standard input");
    Ok(())
}

// -------------------------------------------------------------------- sessions

fn list(dir: &Path) -> Result<BTreeSet<String>, Fail> {
    let mut p = spawn(&mut command(dir, &["--list"]));
    p.stdin = None;
    let code = p.exited()?;
    if code != 0 {
        return p.fail("list", format!("exit code {}", code));
    }
    let lines = p.out.wait(PATIENCE, |g| Some(g.lines.clone())).unwrap();
    let n = lines.len();
    let set: BTreeSet<String> = lines.into_iter().map(|l| String::from_utf8_lossy(&l).into_owned()).collect();
    ensure_eq!(n, set.len(), "list", "sessions listed twice in {:?}", set);
    Ok(set)
}

fn exchange(c: &mut UnixStream, id: usize) -> Res {
    let rq = json!({"jsonrpc": "2.0", "id": id, "method": "edit", "params": {"name": "x", "scratch": true}});
    c.write_all(format!("{}\n", rq).as_bytes())
        .map_err(|e| Fail::new("daemon", format!("write to the session: {}", e)))?;
    c.set_read_timeout(Some(PATIENCE)).expect("HARNESS: timeout");
    let mut r = BufReader::new(c.try_clone().expect("HARNESS: clone"));
    loop {
        let mut l = String::new();
        match r.read_line(&mut l) {
            Ok(n) if n > 0 => {
                let v: Value = serde_json::from_str(&l).map_err(|e| Fail::new("daemon", format!("{}: {:?}", e, short(&l))))?;
                if v["id"] == json!(id) {
                    return Ok(());
                }
            }
            x => return Err(Fail::new("daemon", format!("no answer from the session: {:?}", x))),
        }
    }
}

fn sessions(names: &[u8], daemon: bool, requests: u8, cov: &mut Cov) -> Res {
    let dir = Dir::new();
    let names: BTreeSet<&str> = names.iter().map(|n| NAMES[*n as usize % NAMES.len()]).collect();
    let mut running: Vec<(&str, Option<Child>, Option<UnixStream>)> = Vec::new();
    ensure_eq!(list(&dir.0)?, BTreeSet::new(), "list", "sessions before any");
    let mut groups = Vec::new();
    for name in &names {
        let mut p = spawn(&mut command(
            &dir.0,
            &["-m", if daemon { "daemon" } else { "json" }, "-s", name],
        ));
        let path = dir.0.join("ced-u").join(name);
        if daemon {
            // once it returns, the session is there
            p.stdin = None;
            let code = match p.group.0.wait(PATIENCE) {
                Some(s) => s.code(),
                None => return p.fail("daemon", "starting the daemon does not end".into()),
            };
            if code != Some(0) {
                return p.fail("daemon", format!("exit code {:?}", code));
            }
            let said = p.err.wait(PATIENCE, |g| if g.eof || !g.lines.is_empty() { Some(g.lines.first().cloned()) } else { None });
            let said = String::from_utf8_lossy(&said.flatten().unwrap_or_default()).into_owned();
            let digits: String = said.chars().rev().take_while(char::is_ascii_digit).collect();
            let pid: i32 = digits.chars().rev().collect::<String>().parse().unwrap_or(0);
            ensure!(pid > 0, "daemon", "no process id in {:?}", said);
            let args = std::fs::read_to_string(format!("/proc/{}/cmdline", pid)).unwrap_or_default();
            ensure!(args.contains("server"), "daemon", "process {} is no server: {:?}", pid, args);
            let mut c = match UnixStream::connect(&path) {
                Ok(c) => c,
                Err(e) => return p.fail("daemon", format!("could not connect to the session: {}", e)),
            };
            for i in 0..requests {
                exchange(&mut c, i as usize)?;
            }
            groups.push(p);
            running.push((name, None, Some(c)));
        } else {
            // a client starts the session it lacks
            let got = p.out.wait(PATIENCE, |g| if !g.lines.is_empty() || g.eof { Some(!g.lines.is_empty()) } else { None });
            if got != Some(true) {
                return p.fail("ensure", "no greeting from a session started by its client".into());
            }
            for i in 0..requests {
                let rq = json!({"jsonrpc": "2.0", "id": format!("r{}", i), "method": "edit", "params": {"name": "x", "scratch": true}});
                let _ = p.stdin.as_mut().unwrap().write_all(format!("{}\n", rq).as_bytes());
                let id = json!(format!("r{}", i));
                let answered = p.out.wait(PATIENCE, |g| {
                    let found = g.lines.iter().any(|l| serde_json::from_slice::<Value>(l).is_ok_and(|v| v["id"] == id));
                    if found || g.eof { Some(found) } else { None }
                });
                if answered != Some(true) {
                    return p.fail("ensure", format!("request {} of the first client is not answered", i));
                }
            }
            running.push((name, Some(p), None));
        }
    }
    let mut want: BTreeSet<String> = names.iter().map(|s| s.to_string()).collect();
    ensure_eq!(list(&dir.0)?, want, "list", "sessions running");
    // they end one by one, with their clients
    for (name, child, socket) in &mut running {
        if let Some(p) = child {
            // the client only: its session is in the same group
            let _ = p.group.0 .0.kill();
            let _ = p.group.0.wait(PATIENCE);
        }
        *socket = None;
        want.remove(*name);
        let end = Instant::now() + PATIENCE;
        loop {
            let got = list(&dir.0)?;
            if got == want {
                break;
            }
            ensure!(
                Instant::now() < end,
                "list",
                "after the end of {:?}: listed {:?}, expected {:?}",
                name,
                got,
                want
            );
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    cov.mark_if(names.len() > 1, "sessions: several");
    cov.mark_if(daemon, "sessions: daemon");
    cov.mark_if(!daemon && requests > 0, "sessions: started by a client");
    Ok(())
}

// ----------------------------------------------------------------------- check

pub struct C24;

impl Prop for C24 {
    const ID: &'static str = "C24";
    const RULE: &'static str = "the program is run with generated command lines and inputs: standalone (up to 300 files, up to 12 lines of requests, garbage and bytes which are no text, bursts of up to 600 messages) against the editor run by a stand-in process with the same arguments, directory and input; json between a generated standard input and a fake server speaking every kind of line, both ways, cut at any place; script with up to 4 scripts, from files or the standard input, failing in eight ways; daemons and clients starting several sessions of unusual names, listed while they run and end. Non-trivial: a dialogue of several requests and notifications, invalid lines among valid ones, a failing or further script, a session started.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a line of the standard input which is no text is dropped",
        "scripts end, and do not read the standard input themselves",
    ];
    type Case = Case;
    fn cases(tier: Tier) -> u64 {
        tier.pick(12_000, 400_000)
    }
    const SHRINK_STEPS: u32 = 300;
    const STALL_DETECT: bool = false;
    const REPLAY_TRIES: u32 = 6;
    fn strategy(_tier: Tier) -> BoxedStrategy<Case> {
        let file = prop::option::weighted(0.8, "[ab\n]{0,5}");
        let files = prop_oneof![
            4 => prop::collection::vec(file.clone(), 0..3),
            1 => prop::collection::vec(file, 40..300),
        ];
        let jstep = prop_oneof![
            4 => (prop::collection::vec(srv_line(), 1..5), 0u8..4).prop_map(|(l, k)| JStep::Server(l, k)),
            4 => (prop::collection::vec(input(), 1..5), 0u8..4).prop_map(|(l, k)| JStep::Client(l, k)),
            1 => Just(JStep::Eof),
        ];
        let fault = prop_oneof![3 => Just(Fault::None), 2 => prop::sample::select(FAULTS.to_vec())];
        prop_oneof![
            6 => (files, prop::collection::vec(input(), 0..12), prop::bool::weighted(0.2), prop::bool::weighted(0.2), 0u8..4)
                .prop_map(|(files, lines, crlf, unended, cuts)| Case::Standalone { files, lines, crlf, unended, cuts }),
            6 => (prop::bool::weighted(0.1), any::<u8>(), prop::collection::vec(jstep, 0..8))
                .prop_map(|(tcp, name, steps)| Case::Json { tcp, name, steps }),
            3 => prop::collection::vec((prop::bool::weighted(0.2), fault), 0..5).prop_map(|scripts| Case::Script { scripts }),
            2 => (prop::collection::vec(any::<u8>(), 1..4), any::<bool>(), 0u8..3)
                .prop_map(|(names, daemon, requests)| Case::Sessions { names, daemon, requests }),
        ]
        .boxed()
    }
    fn check(case: &Case, cov: &mut Cov) -> Res {
        match case {
            Case::Standalone { files, lines, crlf, unended, cuts } => {
                standalone(files, lines, *crlf, *unended, *cuts, cov)
            }
            Case::Json { tcp, name, steps } => json_mode(*tcp, *name, steps, cov),
            Case::Script { scripts: s } => scripts(s, cov),
            Case::Sessions { names, daemon, requests } => sessions(names, *daemon, *requests, cov),
        }
    }
}
