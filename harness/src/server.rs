//! C11: the server process, over Unix and TCP sockets.

use crate::engine::*;
use crate::proto::{garbage, strings};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// how long an answer, an exit or a line may take: far more than ever needed
pub const PATIENCE: Duration = Duration::from_secs(20);

pub fn bin(name: &str) -> PathBuf {
    let d = std::env::var("CED_VERIF_REPO_BIN").expect("HARNESS: CED_VERIF_REPO_BIN");
    let p = Path::new(&d).join(name);
    assert!(p.exists(), "HARNESS: {} is not built", p.display());
    p
}

/// kills a process of ours when dropped
pub struct Proc(pub Child);

impl Proc {
    pub fn spawn(c: &mut Command) -> Proc {
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        Proc(c.spawn().expect("HARNESS: spawn a program"))
    }

    /// the exit code, or none when it still runs after a while
    pub fn wait(&mut self, d: Duration) -> Option<std::process::ExitStatus> {
        let end = Instant::now() + d;
        let mut pause = 200;
        loop {
            if let Some(s) = self.0.try_wait().expect("HARNESS: wait") {
                return Some(s);
            }
            if Instant::now() > end {
                return None;
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 2).min(20_000);
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

// ----------------------------------------------------------------------- cases

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Line {
    /// opens the menu, searching for a word of its own
    Menu,
    /// has a script send itself a message of its own
    Echo,
    Scratch(u8),
    View,
    Keys(u8),
    ViewDelete,
    /// a message and a request bigger than what a socket takes at once
    Big(u32),
    Failing,
    Unknown(String),
    Garbage(String),
    /// appends to a buffer anyone may be showing
    Append(u8),
    Quit,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Step {
    Join { deaf: bool },
    /// several at once, those of the second kind leaving at once
    Burst(Vec<bool>),
    /// lines, cut in so many writes, waiting for the answers or not
    Send(u8, Vec<Line>, u8, bool),
    Close(u8),
    Abort(u8),
    HalfLine(u8, String),
    /// a line that is no text, which is answered as such; then stays or leaves
    NotUtf8(u8, bool),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    pub tcp: bool,
    pub name: u8,
    pub neighbour: bool,
    pub steps: Vec<Step>,
    pub last: Vec<u16>,
}

const NAMES: [&str; 6] = ["s", "42", "é 'x\"", "a.b", "@x", "-"];

fn line() -> BoxedStrategy<Line> {
    prop_oneof![
        4 => Just(Line::Menu),
        4 => Just(Line::Echo),
        2 => (0u8..3).prop_map(Line::Scratch),
        2 => Just(Line::View),
        2 => any::<u8>().prop_map(Line::Keys),
        1 => Just(Line::ViewDelete),
        1 => Just(Line::Failing),
        1 => strings().prop_map(Line::Unknown),
        2 => garbage().prop_filter("one line", |s| !s.contains('\n')).prop_map(Line::Garbage),
        2 => (0u8..3).prop_map(Line::Append),
        1 => (1u32..900_000).prop_map(Line::Big),
        1 => Just(Line::Quit),
    ]
    .boxed()
}

fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        4 => prop::bool::weighted(0.1).prop_map(|deaf| Step::Join { deaf }),
        1 => prop::collection::vec(any::<bool>(), 1..5).prop_map(Step::Burst),
        12 => (any::<u8>(), prop::collection::vec(line(), 1..6), 0u8..4, prop::bool::weighted(0.4))
            .prop_map(|(c, l, k, w)| Step::Send(c, l, k, w)),
        2 => any::<u8>().prop_map(Step::Close),
        2 => any::<u8>().prop_map(Step::Abort),
        1 => (any::<u8>(), "[a-z{\":]{1,9}").prop_map(|(c, s)| Step::HalfLine(c, s)),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(c, l)| Step::NotUtf8(c, l)),
    ]
    .boxed()
}

// ----------------------------------------------------------------- connections

pub enum Sock {
    Unix(UnixStream),
    Tcp(TcpStream),
}

impl Sock {
    pub fn try_clone(&self) -> Sock {
        match self {
            Sock::Unix(s) => Sock::Unix(s.try_clone().expect("HARNESS: clone")),
            Sock::Tcp(s) => Sock::Tcp(s.try_clone().expect("HARNESS: clone")),
        }
    }
    fn write(&mut self, b: &[u8]) -> std::io::Result<()> {
        match self {
            Sock::Unix(s) => s.write_all(b),
            Sock::Tcp(s) => s.write_all(b),
        }
    }
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Sock::Unix(s) => s.read(b),
            Sock::Tcp(s) => s.read(b),
        }
    }
    fn shutdown(&self) {
        let _ = match self {
            Sock::Unix(s) => s.shutdown(std::net::Shutdown::Both),
            Sock::Tcp(s) => s.shutdown(std::net::Shutdown::Both),
        };
    }
    /// closing then resets the connection
    fn linger0(&self) {
        if let Sock::Tcp(s) = self {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    s.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const libc::c_void,
                    std::mem::size_of::<libc::linger>() as u32,
                );
            }
        }
    }
}

#[derive(Default)]
struct Inbox {
    lines: Vec<String>,
    eof: bool,
}

/// what a connection was sent, gathered by a thread
struct Reader(Arc<(Mutex<Inbox>, Condvar)>);

impl Reader {
    fn start(mut s: Sock) -> Reader {
        let shared: Arc<(Mutex<Inbox>, Condvar)> = Default::default();
        let mine = shared.clone();
        std::thread::spawn(move || {
            let mut rest: Vec<u8> = Vec::new();
            let mut buf = [0u8; 65536];
            loop {
                let n = s.read(&mut buf).unwrap_or(0);
                let mut inbox = mine.0.lock().unwrap();
                if n == 0 {
                    if !rest.is_empty() {
                        inbox.lines.push(format!("UNENDED {}", String::from_utf8_lossy(&rest)));
                    }
                    inbox.eof = true;
                    mine.1.notify_all();
                    return;
                }
                rest.extend_from_slice(&buf[..n]);
                while let Some(i) = rest.iter().position(|b| *b == b'\n') {
                    let l: Vec<u8> = rest.drain(..=i).collect();
                    inbox.lines.push(String::from_utf8_lossy(&l[..i]).into_owned());
                }
                mine.1.notify_all();
            }
        });
        Reader(shared)
    }

    /// waits until `f` holds
    fn wait<T>(&self, d: Duration, mut f: impl FnMut(&Inbox) -> Option<T>) -> Option<T> {
        let end = Instant::now() + d;
        let mut inbox = self.0 .0.lock().unwrap();
        loop {
            if let Some(t) = f(&inbox) {
                return Some(t);
            }
            let now = Instant::now();
            if now >= end {
                return None;
            }
            inbox = self.0 .1.wait_timeout(inbox, end - now).unwrap().0;
        }
    }
}

struct Conn {
    n: usize,
    sock: Sock,
    reader: Option<Reader>,
    /// ids of the requests sent, null for what is no request
    asked: Vec<Value>,
    /// menus and messages it must get, in order
    menus: Vec<String>,
    echoes: Vec<String>,
    errors: usize,
    quit: bool,
    /// lines sent after it quit
    after: usize,
}

struct Run<'a> {
    server: Proc,
    case: &'a Case,
    path: PathBuf,
    addr: String,
    conns: Vec<Conn>,
    /// readers of connections that are over
    over: Vec<(usize, Reader, Vec<String>, Vec<String>)>,
    joined: usize,
    seq: usize,
    last_id: i64,
    stderr: PathBuf,
}

impl<'a> Run<'a> {
    fn fail<T>(&mut self, sig: &str, msg: String) -> Result<T, Fail> {
        let err = std::fs::read_to_string(&self.stderr).unwrap_or_default();
        let state = match self.server.0.try_wait() {
            Ok(Some(s)) => format!("server ended: {}", s),
            _ => "server running".into(),
        };
        let at = err.find("panicked").map_or(err.len().saturating_sub(300), |i| i.saturating_sub(40));
        let tail: String = err.chars().skip(at).take(400).collect();
        Err(Fail::new(sig, format!("{}; {}; {:?}", msg, state, tail)))
    }

    fn connect(&mut self) -> Result<Sock, Fail> {
        let r = if self.case.tcp {
            TcpStream::connect(&self.addr).map(Sock::Tcp)
        } else {
            UnixStream::connect(&self.path).map(Sock::Unix)
        };
        match r {
            Ok(s) => Ok(s),
            Err(e) => self.fail("connection refused", format!("client {} could not connect: {}", self.joined, e)),
        }
    }

    fn join(&mut self, deaf: bool) -> Result<(), Fail> {
        let sock = self.connect()?;
        self.joined += 1;
        let reader = if deaf { None } else { Some(Reader::start(sock.try_clone())) };
        self.conns.push(Conn {
            n: self.joined,
            sock,
            reader,
            asked: Vec::new(),
            menus: Vec::new(),
            echoes: Vec::new(),
            errors: 0,
            quit: false,
            after: 0,
        });
        Ok(())
    }

    fn write(&mut self, i: usize, bytes: &[u8], cuts: u8) {
        let c = &mut self.conns[i];
        let size = bytes.len() / (cuts as usize + 1) + 1;
        for (k, part) in bytes.chunks(size).enumerate() {
            if k > 0 {
                std::thread::sleep(Duration::from_millis(1));
            }
            // a connection closed by the server shows when its answers are awaited
            let _ = c.sock.write(part);
        }
    }

    fn no_text(&mut self, i: usize, cuts: u8) {
        let c = &mut self.conns[i];
        if c.quit {
            c.after += 1;
        } else {
            c.asked.push(Value::Null);
        }
        self.write(i, b"{\"jsonrpc\": \xff\xfe\n", cuts);
    }

    fn lines(&mut self, i: usize, lines: &[Line], cov: &mut Cov) -> String {
        let mut out = String::new();
        for l in lines {
            self.seq += 1;
            let seq = self.seq;
            let c = &mut self.conns[i];
            let tag = format!("q{}x{}", c.n, seq);
            let id = json!(format!("{}-{}", c.n, seq));
            let rq = |m: &str, p: Value| json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}).to_string();
            let line = match l {
                Line::Menu => {
                    if !c.quit {
                        c.menus.push(tag.clone());
                    }
                    rq("menu", json!({"command": "", "search": tag}))
                }
                Line::Echo => {
                    if !c.quit {
                        c.echoes.push(tag.clone());
                    }
                    rq("exec", json!(format!("editor:message(tonumber(env.client), '{}')", tag)))
                }
                Line::Big(n) => {
                    let n = *n as usize;
                    if c.reader.is_none() {
                        continue;
                    }
                    if !c.quit {
                        c.echoes.push(short(&format!("{}{}", tag, "x".repeat(n))));
                        cov.mark_if(n > 250_000, "message bigger than a socket buffer");
                    }
                    let source = format!(
                        "editor:message(tonumber(env.client), '{}' .. string.rep('x', {})) -- {}",
                        tag,
                        n,
                        "é".repeat(n / 2)
                    );
                    rq("exec", json!(source))
                }
                Line::Scratch(n) => rq("edit", json!({"name": format!("shared{}", n), "scratch": true})),
                Line::View => rq("view", json!("*debug*")),
                Line::Keys(k) => {
                    let key = ["i", "g", "h", "j", "k", "l", "d", "x"][*k as usize % 8];
                    rq("keys", json!([{"ctrl": false, "alt": false, "shift": k & 8 != 0, "key": {"Char": key}}]))
                }
                Line::ViewDelete => json!({"jsonrpc": "2.0", "id": id, "method": "view-delete"}).to_string(),
                Line::Failing => rq("exec", json!("error('oops')")),
                Line::Unknown(m) => {
                    if ["edit", "view", "view-add", "view-remove", "view-delete", "menu", "menu-select", "keys", "exec", "quit"]
                        .contains(&m.as_str())
                    {
                        continue;
                    }
                    rq(m, Value::Null)
                }
                Line::Garbage(g) => g.clone(),
                Line::Append(n) => rq("exec", json!(format!("editor:append_to('shared{}', 'x\\n')", n))),
                Line::Quit => json!({"jsonrpc": "2.0", "id": id, "method": "quit"}).to_string(),
            };
            if c.quit {
                c.after += 1;
                cov.mark("line sent after quitting");
            } else {
                c.asked.push(if matches!(l, Line::Garbage(_)) { Value::Null } else { id.clone() });
            }
            if matches!(l, Line::Quit) {
                c.quit = true;
                cov.mark("client quit");
            }
            out.push_str(&line);
            out.push('\n');
        }
        out
    }

    /// waits for the answers of a connection and checks all it was sent
    fn sync(&mut self, i: usize) -> Result<(), Fail> {
        if self.conns[i].reader.is_none() {
            return Ok(());
        }
        // the broadcasts are sent by another task than the answers
        let c = &self.conns[i];
        let want = match c.quit {
            false => (c.asked.len(), c.menus.len(), c.echoes.len()),
            // what was for it when it quit may be lost
            true => (c.asked.len(), 0, 0),
        };
        let count = |inbox: &Inbox| {
            let (mut a, mut m, mut e) = (0, 0, 0);
            for l in &inbox.lines {
                if let Ok(v) = serde_json::from_str::<Value>(l) {
                    match v["method"].as_str() {
                        None => a += 1,
                        Some("menu") => m += 1,
                        Some("echo") if v["params"][0]["face"] == "Default" => e += 1,
                        _ => {}
                    }
                }
            }
            (a, m, e)
        };
        let done = c.reader.as_ref().unwrap().wait(PATIENCE, |inbox| {
            let n = count(inbox);
            if inbox.eof || (n.0 >= want.0 && n.1 >= want.1 && n.2 >= want.2) {
                Some((n, inbox.eof))
            } else {
                None
            }
        });
        let n = c.n;
        match done {
            None => {
                let got = c.reader.as_ref().unwrap().wait(Duration::ZERO, |i| Some(count(i))).unwrap();
                return self.fail(
                    "no answer",
                    format!("client {} got {:?} answers, menus and messages of {:?}", n, got, want),
                );
            }
            Some((got, true)) if got.0 < want.0 || got.1 < want.1 || got.2 < want.2 => {
                return self.fail(
                    "connection closed",
                    format!("client {} was cut with {:?} answers, menus and messages of {:?}", n, got, want),
                )
            }
            _ => {}
        }
        self.inspect(i)
    }

    fn inspect(&mut self, i: usize) -> Result<(), Fail> {
        let c = &self.conns[i];
        let lines = c.reader.as_ref().unwrap().wait(Duration::ZERO, |b| Some(b.lines.clone())).unwrap();
        let (asked, mut menus, mut echoes, n, after) = (c.asked.clone(), c.menus.clone(), c.echoes.clone(), c.n, c.after);
        let quit = c.quit;
        let got = match read(n, &lines) {
            Ok(g) => g,
            Err(m) => return self.fail("form of a message", m),
        };
        // what is answered to lines sent after quitting is not said
        let answers = &got.ids[..got.ids.len().min(if after > 0 { asked.len() } else { usize::MAX })];
        if answers != &asked[..] {
            return self.fail("answers", format!("client {} got answers {:?}, expected {:?}", n, answers, asked));
        }
        if quit {
            menus.truncate(got.menus.len());
            echoes.truncate(got.echoes.len());
        }
        if got.menus != menus || got.echoes != echoes {
            return self.fail(
                "notifications",
                format!(
                    "client {} got menus {:?} and messages {:?}, expected {:?} and {:?}",
                    n, got.menus, got.echoes, menus, echoes
                ),
            );
        }
        Ok(())
    }

    /// who is there gets its greeting; clients are numbered in the order they came
    fn greetings(&mut self) -> Result<(), Fail> {
        let mut ids = Vec::new();
        for i in 0..self.conns.len() {
            let c = &self.conns[i];
            // a client that quits may not be greeted any more
            if let (Some(r), false) = (&c.reader, c.quit) {
                let id = r.wait(PATIENCE, |b| {
                    b.lines.iter().find_map(|l| {
                        let v: Value = serde_json::from_str(l).ok()?;
                        if v["method"] == "info" {
                            Some(v["params"]["client"].as_str().unwrap_or("").to_string())
                        } else {
                            None
                        }
                    })
                });
                let n = c.n;
                match id {
                    Some(id) => ids.push((n, id.parse::<i64>().unwrap_or(-1))),
                    None => return self.fail("no greeting", format!("client {} was never greeted", n)),
                }
            }
        }
        let distinct: BTreeSet<i64> = ids.iter().map(|x| x.1).collect();
        if distinct.len() != ids.len() || ids.windows(2).any(|w| w[0].1 >= w[1].1) {
            return self.fail("identities", format!("connections and identities: {:?}", ids));
        }
        self.last_id = *distinct.iter().last().unwrap_or(&0);
        Ok(())
    }

    fn pick(&self, n: u8) -> Option<usize> {
        if self.conns.is_empty() {
            None
        } else {
            Some(n as usize % self.conns.len())
        }
    }

    /// clients that are connected and did not quit
    fn living(&self) -> usize {
        self.conns.iter().filter(|c| !c.quit).count()
    }

    /// whether someone else is there for good: waits for its greeting, as the
    /// server may end before it sees who joins while the last one leaves
    fn attended(&self, i: usize) -> bool {
        let other = (0..self.conns.len()).find(|j| *j != i && !self.conns[*j].quit && self.conns[*j].reader.is_some());
        let r = match other {
            None => return false,
            Some(j) => self.conns[j].reader.as_ref().unwrap(),
        };
        r.wait(PATIENCE, |b| {
            if b.eof {
                Some(false)
            } else if b.lines.iter().any(|l| l.contains("\"method\":\"info\"")) {
                Some(true)
            } else {
                None
            }
        })
        // the failure shows when its greeting is awaited
        .unwrap_or(true)
    }

    fn retire(&mut self, i: usize) -> Conn {
        self.conns.remove(i)
    }

    fn close(&mut self, i: usize, abort: bool) {
        let mut c = self.retire(i);
        if abort {
            c.sock.linger0();
            if let (Sock::Tcp(s), Some(_)) = (&c.sock, &c.reader) {
                // the reader's copy keeps it open
                let _ = s.shutdown(std::net::Shutdown::Read);
            }
        } else {
            c.sock.shutdown();
        }
        if let Some(r) = c.reader.take() {
            if abort {
                c.sock.shutdown();
            }
            self.over.push((c.n, r, c.menus, c.echoes));
        }
    }
}

struct Got {
    ids: Vec<Value>,
    menus: Vec<String>,
    echoes: Vec<String>,
}

fn read(n: usize, lines: &[String]) -> Result<Got, String> {
    let mut got = Got {
        ids: Vec::new(),
        menus: Vec::new(),
        echoes: Vec::new(),
    };
    let mut infos = 0;
    for l in lines {
        let v: Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(_) => return Err(format!("client {} was sent {:?}", n, l)),
        };
        if v["jsonrpc"] != "2.0" {
            return Err(format!("client {} was sent {:?}", n, l));
        }
        match v["method"].as_str() {
            None => {
                if !(v.get("id").is_some() && (v.get("result").is_some() != v.get("error").is_some())) {
                    return Err(format!("client {} was sent {:?}", n, l));
                }
                got.ids.push(v["id"].clone());
            }
            Some("menu") => got.menus.push(v["params"]["search"].as_str().unwrap_or("?").into()),
            Some("echo") => {
                let t: String = v["params"]
                    .as_array()
                    .map(|a| a.iter().map(|f| f["text"].as_str().unwrap_or("?")).collect())
                    .unwrap_or_default();
                if v["params"][0]["face"] == "Default" {
                    got.echoes.push(short(&t));
                }
            }
            Some("info") => {
                infos += 1;
                if infos > 1 {
                    return Err(format!("client {} was greeted twice", n));
                }
            }
            _ => {}
        }
    }
    Ok(got)
}

fn short(t: &str) -> String {
    if t.len() < 100 {
        t.into()
    } else {
        format!("{}... of {} characters", &t[..20], t.len())
    }
}

fn free_port() -> u16 {
    TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).expect("HARNESS: port").port()
}

/// starts a server and waits until it says it is ready
fn start(case: &Case, dir: &Path) -> Option<(Proc, PathBuf, String, PathBuf)> {
    let root = dir.join("ced-verif");
    let name = NAMES[case.name as usize % NAMES.len()];
    let port = free_port();
    let addr = format!("127.0.0.1:{}", port);
    let session = if case.tcp { format!("@:{}", port) } else { name.to_string() };
    let stderr = dir.join("stderr");
    let mut p = Proc::spawn(
        Command::new(bin("ced"))
            .arg("--mode=server")
            .arg(format!("--session={}", session))
            .current_dir(dir)
            .env("TMPDIR", dir)
            .env("USER", "verif")
            .env("HOME", dir)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&stderr).expect("HARNESS: stderr")),
    );
    let mut out = p.0.stdout.take().unwrap();
    let mut b = [0u8; 1];
    match out.read(&mut b) {
        Ok(1) => {}
        _ => return None,
    }
    // keeps the pipe open as long as the server runs
    std::thread::spawn(move || {
        let mut rest = Vec::new();
        let _ = out.read_to_end(&mut rest);
    });
    Some((p, root.join(name), addr, stderr))
}

pub struct C11;

impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "server processes on a Unix or TCP socket, driven by up to 8 connections at once which join (one by one or in bursts), send batches of lines of every kind cut anywhere, quit, go on after quitting, do not read, and leave by closing, resetting, in the middle of a line or with bytes that are no text. Oracle: the answers of each connection in order, the menus and messages it asked for (each with a tag of its own) on it and on no other, greetings in the order of arrival, and the end of the server. Non-trivial: a connection reset, cut in a line, not text, quit, or deaf, while others are served.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "a client that does not read is sent less than the system buffers for a socket",
        "a client that joins while the last one leaves may be refused",
    ];
    type Case = Case;
    const STALL_DETECT: bool = false;
    const SHRINK_STEPS: u32 = 300;
    const REPLAY_TRIES: u32 = 8;

    fn cases(tier: Tier) -> u64 {
        tier.pick(6000, 300_000)
    }

    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        (
            any::<bool>(),
            any::<u8>(),
            prop::bool::weighted(0.3),
            prop::collection::vec(step(), 1..tier.pick(20, 40)),
            prop::collection::vec(any::<u16>(), 8),
        )
            .prop_map(|(tcp, name, neighbour, steps, last)| Case {
                tcp,
                name,
                neighbour,
                steps,
                last,
            })
            .boxed()
    }

    fn check(case: &Case, cov: &mut Cov) -> Res {
        let dir = std::env::current_dir().expect("HARNESS: cwd").join("s");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("ced-verif")).expect("HARNESS: directory");
        let neighbour = dir.join("ced-verif").join("neighbour");
        if case.neighbour {
            std::fs::write(&neighbour, "").expect("HARNESS: neighbour");
        }
        // a port may be taken by someone else meanwhile
        let mut started = None;
        for _ in 0..4 {
            started = start(case, &dir);
            if started.is_some() || !case.tcp {
                break;
            }
        }
        let (server, path, addr, stderr) = match started {
            Some(s) => s,
            None if case.tcp => {
                cov.inconclusive = true;
                return Ok(());
            }
            None => {
                let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
                return Err(Fail::new("start", format!("the server did not start: {}", err)));
            }
        };
        cov.hit(if case.tcp { "TCP" } else { "Unix socket" });
        let mut r = Run {
            server,
            case,
            path: path.clone(),
            addr,
            conns: Vec::new(),
            over: Vec::new(),
            joined: 0,
            seq: 0,
            last_id: 0,
            stderr,
        };
        r.join(false)?;
        for s in &case.steps {
            match s {
                Step::Join { deaf } => {
                    if r.conns.len() < 8 {
                        r.join(*deaf)?;
                        cov.hit_if(*deaf, "client that does not read");
                        cov.mark_if(*deaf, "client that does not read, others served");
                    }
                }
                Step::Burst(v) => {
                    cov.hit("burst");
                    for leaves in v {
                        if r.conns.len() < 8 {
                            r.join(false)?;
                            if *leaves {
                                let i = r.conns.len() - 1;
                                if r.attended(i) {
                                    r.close(i, true);
                                    cov.mark("client left at once");
                                }
                            }
                        }
                    }
                }
                Step::Send(c, lines, cuts, wait) => {
                    if let Some(i) = r.pick(*c) {
                        let lines: Vec<Line> = lines
                            .iter()
                            // someone must remain
                            .filter(|l| !matches!(l, Line::Quit) || r.living() > 1 && !r.conns[i].quit && r.attended(i))
                            .cloned()
                            .collect();
                        let text = r.lines(i, &lines, cov);
                        r.write(i, text.as_bytes(), *cuts);
                        cov.hit_if(lines.len() > 1, "several lines at once");
                        if *wait {
                            r.sync(i)?;
                        }
                    }
                }
                Step::NotUtf8(c, false) => {
                    if let Some(i) = r.pick(*c) {
                        let cuts = *c & 1;
                        r.no_text(i, cuts);
                        cov.mark("line that is no text");
                    }
                }
                Step::Close(c) | Step::Abort(c) | Step::NotUtf8(c, true) | Step::HalfLine(c, _) => {
                    let i = match r.pick(*c) {
                        Some(i) => i,
                        None => continue,
                    };
                    if !r.attended(i) {
                        continue;
                    }
                    match s {
                        Step::Close(_) => {
                            r.sync(i)?;
                            cov.hit("client closed");
                            r.close(i, false);
                        }
                        Step::Abort(_) => {
                            cov.mark("client reset");
                            r.close(i, true);
                        }
                        Step::HalfLine(_, t) => {
                            cov.mark("client cut in a line");
                            r.write(i, t.as_bytes(), 0);
                            r.close(i, false);
                        }
                        _ => {
                            cov.mark("client not sending text");
                            r.sync(i)?;
                            r.no_text(i, 1);
                            r.close(i, false);
                        }
                    }
                }
            }
        }
        // once a later client is greeted, those that do not read are there too
        if r.conns.iter().any(|c| c.reader.is_none()) {
            r.join(false)?;
        }
        r.greetings()?;
        for i in 0..r.conns.len() {
            r.sync(i)?;
        }
        cov.hit(match r.conns.len() {
            1 => "one client at the end",
            2..=3 => "2 or 3 clients at the end",
            _ => "4 clients or more at the end",
        });
        // all leave, the others being served until the last is gone
        for (k, n) in case.last.iter().enumerate() {
            if r.conns.is_empty() {
                break;
            }
            // one that quit may be the last to close its connection
            let i = *n as usize % r.conns.len();
            let lives = !r.conns[i].quit;
            let lone = lives && r.living() == 1;
            if lone && r.conns.len() > 1 {
                continue;
            }
            if lives && n & 2 == 2 && r.conns[i].reader.is_some() {
                let text = r.lines(i, &[Line::Quit], cov);
                r.write(i, text.as_bytes(), *n as u8 & 8);
                if n & 4 == 4 {
                    r.sync(i)?;
                }
                cov.mark_if(lone, "all quit");
            }
            r.close(i, n & 1 == 1);
            if r.living() > 0 {
                std::thread::sleep(Duration::from_millis(if k == 0 { 10 } else { 2 }));
                if let Ok(Some(st)) = r.server.0.try_wait() {
                    return r.fail("early exit", format!("the server ended ({}) while {} clients are connected", st, r.living()));
                }
                let j = (0..r.conns.len()).find(|j| !r.conns[*j].quit && r.conns[*j].reader.is_some());
                if let Some(j) = j {
                    let text = r.lines(j, &[Line::Menu, Line::Echo], cov);
                    r.write(j, text.as_bytes(), 0);
                    r.sync(j)?;
                }
            }
        }
        let how = case.last.first().copied().unwrap_or(0);
        if how & 2 == 2 {
            // those that are left quit before they close
            for i in 0..r.conns.len() {
                if !r.conns[i].quit && r.conns[i].reader.is_some() {
                    let text = r.lines(i, &[Line::Quit], cov);
                    r.write(i, text.as_bytes(), how as u8 & 1);
                    if how & 4 == 4 {
                        r.sync(i)?;
                    }
                    cov.mark_if(r.living() == 0, "all quit");
                }
            }
        }
        while !r.conns.is_empty() {
            // those that live, last
            let i = (0..r.conns.len()).find(|i| r.conns[*i].quit).unwrap_or(0);
            r.close(i, false);
        }
        match r.server.wait(PATIENCE) {
            None => return r.fail("no exit", "the server goes on without any client".into()),
            Some(st) if !st.success() => return r.fail("exit", format!("the server ended with {}", st)),
            Some(_) => {}
        }
        // what those who left were sent was for them too
        let over = std::mem::take(&mut r.over);
        for (n, reader, menus, echoes) in over {
            let lines = reader.wait(PATIENCE, |b| if b.eof { Some(b.lines.clone()) } else { None }).unwrap_or_default();
            let lines: Vec<String> = lines.into_iter().filter(|l| !l.starts_with("UNENDED ")).collect();
            match read(n, &lines) {
                Err(m) => return r.fail("form of a message", m),
                Ok(g) => {
                    if !menus.starts_with(&g.menus) || !echoes.starts_with(&g.echoes) {
                        return r.fail(
                            "notifications",
                            format!(
                                "client {} got menus {:?} and messages {:?}, expected {:?} and {:?}",
                                n, g.menus, g.echoes, menus, echoes
                            ),
                        );
                    }
                }
            }
        }
        let err = std::fs::read_to_string(&r.stderr).unwrap_or_default();
        if err.contains("panicked") {
            return r.fail("panic", "the server panicked".into());
        }
        if !case.tcp {
            if path.exists() {
                return r.fail("socket left", format!("{} is still there", path.display()));
            }
            if case.neighbour != neighbour.exists() {
                return r.fail("neighbour", "another socket was removed".into());
            }
        }
        Ok(())
    }
}
