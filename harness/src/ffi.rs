//! C18: the shared library, loaded as a C program would, against a fake server.

use crate::conn::{srv_line, text_json, SrvLine, Txt};
use crate::engine::*;
use crate::server::{bin, PATIENCE};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::Cell;
use std::ffi::{CStr, CString};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::raw::{c_char, c_int, c_void};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::net::{UnixListener, UnixStream};
use std::time::{Duration, Instant};

// --------------------------------------------------------- the header, by hand

#[repr(C)]
struct Event {
    tag: c_int,
    payload: Payload,
}
#[repr(C)]
union Payload {
    /// of messages, statuses, views and hints
    items: *mut c_void,
    /// of errors
    message: *const c_char,
    info: Info,
    menu: MenuEv,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Info {
    client: *const c_char,
    session: *const c_char,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct MenuEv {
    command: *const c_char,
    title: *const c_char,
    search: *const c_char,
    items: *mut c_void,
    selected: u32,
}
#[repr(C)]
struct TextItem {
    text: *const c_char,
    face: *const c_char,
}
#[repr(C)]
struct StatusItem {
    index: c_int,
    text: *mut c_void,
}
#[repr(C)]
struct ViewItem {
    buffer: *const c_char,
    start: u32,
    end: u32,
    lenses: *mut c_void,
}
#[repr(C)]
struct ViewLens {
    lines: *mut c_void,
    first_line_num: u32,
}
#[repr(C)]
struct Version {
    parts: [*const c_char; 4],
}

type P = *mut c_void;

struct Lib {
    version: unsafe extern "C" fn() -> *mut Version,
    version_destroy: unsafe extern "C" fn(*mut Version),
    error_length: unsafe extern "C" fn() -> c_int,
    error_message: unsafe extern "C" fn(*mut c_char, c_int) -> c_int,
    create: unsafe extern "C" fn(*const c_char) -> P,
    next_event: unsafe extern "C" fn(P) -> *mut Event,
    destroy: unsafe extern "C" fn(P),
    event_destroy: unsafe extern "C" fn(*mut Event),
    text_next: unsafe extern "C" fn(P) -> *mut TextItem,
    text_item_destroy: unsafe extern "C" fn(*mut TextItem),
    text_destroy: unsafe extern "C" fn(P),
    status_next: unsafe extern "C" fn(P) -> *mut StatusItem,
    status_item_destroy: unsafe extern "C" fn(*mut StatusItem),
    status_destroy: unsafe extern "C" fn(P),
    view_next: unsafe extern "C" fn(P) -> *mut ViewItem,
    view_item_destroy: unsafe extern "C" fn(*mut ViewItem),
    view_destroy: unsafe extern "C" fn(P),
    lens_next: unsafe extern "C" fn(P) -> *mut ViewLens,
    lens_destroy: unsafe extern "C" fn(*mut ViewLens),
}

impl Lib {
    fn load() -> Lib {
        let path = CString::new(bin("libced_remote.so").as_os_str().as_bytes()).unwrap();
        unsafe {
            let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW);
            assert!(!h.is_null(), "HARNESS: the library does not load");
            macro_rules! sym {
                ($n:literal) => {{
                    let p = libc::dlsym(h, concat!($n, "\0").as_ptr() as *const c_char);
                    assert!(!p.is_null(), concat!("no function ", $n));
                    std::mem::transmute(p)
                }};
            }
            Lib {
                version: sym!("ced_version"),
                version_destroy: sym!("ced_version_destroy"),
                error_length: sym!("ced_last_error_length"),
                error_message: sym!("ced_last_error_message"),
                create: sym!("ced_connection_create"),
                next_event: sym!("ced_connection_next_event"),
                destroy: sym!("ced_connection_destroy"),
                event_destroy: sym!("ced_event_destroy"),
                text_next: sym!("ced_text_next_item"),
                text_item_destroy: sym!("ced_text_item_destroy"),
                text_destroy: sym!("ced_text_iterator_destroy"),
                status_next: sym!("ced_status_next_item"),
                status_item_destroy: sym!("ced_status_item_destroy"),
                status_destroy: sym!("ced_status_iterator_destroy"),
                view_next: sym!("ced_view_next_item"),
                view_item_destroy: sym!("ced_view_item_destroy"),
                view_destroy: sym!("ced_view_iterator_destroy"),
                lens_next: sym!("ced_view_lens_next_item"),
                lens_destroy: sym!("ced_view_lens_destroy"),
            }
        }
    }
}

thread_local! {
    static LIB: Lib = Lib::load();
    static N: Cell<u64> = const { Cell::new(0) };
}

unsafe fn text_of(p: *const c_char) -> Option<String> {
    if p.is_null() {
        None
    } else {
        Some(CStr::from_ptr(p).to_string_lossy().into_owned())
    }
}

/// what C strings can hold
fn c(s: &str) -> Value {
    json!(s.replace('\0', "\u{fffd}"))
}

/// NUL characters may be carried otherwise
fn holds_nul(v: &Value) -> bool {
    v.to_string().contains("\\u0000")
}

fn cjson(v: &Value) -> Value {
    match v {
        Value::String(s) => c(s),
        Value::Array(a) => a.iter().map(cjson).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), cjson(v))).collect(),
        v => v.clone(),
    }
}

// ----------------------------------------------------------------------- cases

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum How {
    NoSuchDirectory,
    Stale,
    NotASocket,
    ClosedPort,
    LongName,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Case {
    Events {
        tcp: bool,
        /// lines sent together; then how many of the things of an event are
        /// read at most, and whether it is destroyed first
        batches: Vec<(Vec<SrvLine>, u8, bool)>,
        /// destroyed before the server closes the connection
        destroy_first: bool,
    },
    Refused(How, Vec<i16>),
    /// a session that has to be started
    Start,
    /// two connections, their lines interleaved
    Two(bool, Vec<(bool, SrvLine)>),
}

enum Peer {
    Unix(UnixStream),
    Tcp(TcpStream),
}

impl Peer {
    fn write(&mut self, b: &[u8]) -> std::io::Result<()> {
        // more than the socket takes is written while the client reads
        let (now, later) = b.split_at(b.len().min(50_000));
        if !later.is_empty() {
            let (now, later) = (now.to_vec(), later.to_vec());
            match self {
                Peer::Unix(s) => {
                    let mut s = s.try_clone()?;
                    std::thread::spawn(move || s.write_all(&now).and_then(|_| s.write_all(&later)));
                }
                Peer::Tcp(s) => {
                    let mut s = s.try_clone()?;
                    std::thread::spawn(move || s.write_all(&now).and_then(|_| s.write_all(&later)));
                }
            }
            return Ok(());
        }
        match self {
            Peer::Unix(s) => s.write_all(now),
            Peer::Tcp(s) => s.write_all(now),
        }
    }
    /// whether the other end closes before long
    fn closes(&mut self) -> bool {
        let end = Instant::now() + PATIENCE;
        let mut buf = [0u8; 256];
        let mut pause = 1;
        while Instant::now() < end {
            // it only notices by being sent something
            if self.write(b"{\"jsonrpc\":\"2.0\",\"method\":\"x\"}\n").is_err() {
                return true;
            }
            let d = Some(Duration::from_millis(pause));
            let r = match self {
                Peer::Unix(s) => {
                    let _ = s.set_read_timeout(d);
                    s.read(&mut buf)
                }
                Peer::Tcp(s) => {
                    let _ = s.set_read_timeout(d);
                    s.read(&mut buf)
                }
            };
            match r {
                Ok(0) => return true,
                Ok(_) => {}
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(_) => return true,
            }
            pause = (pause * 2).min(200);
        }
        false
    }
}

fn root() -> std::path::PathBuf {
    let user = std::env::var("USER").unwrap_or_else(|_| {
        std::env::set_var("USER", "u");
        "u".into()
    });
    let d = std::env::temp_dir().join(format!("ced-{}", user));
    std::fs::create_dir_all(&d).expect("HARNESS: make a directory");
    d
}

fn connected(lib: &Lib, tcp: bool) -> Result<(P, Peer), Fail> {
    let n = N.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    let create = |name: &str| -> Result<P, Fail> {
        let name = CString::new(name).unwrap();
        let p = unsafe { (lib.create)(name.as_ptr()) };
        if p.is_null() {
            return Err(Fail::new("connection", format!("no connection: {:?}", last_error(lib))));
        }
        Ok(p)
    };
    if tcp {
        let l = TcpListener::bind("127.0.0.1:0").expect("HARNESS: bind");
        let p = create(&format!("@{}", l.local_addr().expect("HARNESS: address")))?;
        let (s, _) = l.accept().expect("HARNESS: accept");
        Ok((p, Peer::Tcp(s)))
    } else {
        let name = format!("s{}", n);
        let path = root().join(&name);
        let _ = std::fs::remove_file(&path);
        let l = UnixListener::bind(&path).expect("HARNESS: bind");
        let p = create(&name)?;
        let (s, _) = l.accept().expect("HARNESS: accept");
        let _ = std::fs::remove_file(&path);
        Ok((p, Peer::Unix(s)))
    }
}

fn last_error(lib: &Lib) -> Option<String> {
    unsafe {
        let n = (lib.error_length)();
        if n < 0 {
            return None;
        }
        let mut buf = vec![0u8; n as usize + 1];
        (lib.error_message)(buf.as_mut_ptr() as *mut c_char, n + 1);
        Some(text_of(buf.as_ptr() as *const c_char).unwrap())
    }
}

// ---------------------------------------------------------------------- events

struct Read1<'a> {
    lib: &'a Lib,
    /// things read at most of each list; the whole list when over 3
    most: usize,
}

impl Read1<'_> {
    /// false when the list goes on after its end
    unsafe fn ended<T>(&self, next: unsafe extern "C" fn(P) -> *mut T, it: P, n: usize) -> bool {
        n >= self.most || next(it).is_null()
    }

    unsafe fn text(&self, it: P) -> Result<Value, Fail> {
        let mut v = Vec::new();
        while v.len() < self.most {
            let i = (self.lib.text_next)(it);
            if i.is_null() {
                break;
            }
            v.push(json!({"text": text_of((*i).text), "face": text_of((*i).face)}));
            (self.lib.text_item_destroy)(i);
        }
        ensure!(self.ended(self.lib.text_next, it, v.len()), "iteration", "a text goes on after its end");
        (self.lib.text_destroy)(it);
        Ok(Value::Array(v))
    }

    unsafe fn status(&self, it: P) -> Result<Value, Fail> {
        let mut v = Vec::new();
        while v.len() < self.most {
            let i = (self.lib.status_next)(it);
            if i.is_null() {
                break;
            }
            v.push(json!({"index": (*i).index, "text": self.text((*i).text)?}));
            (self.lib.status_item_destroy)(i);
        }
        ensure!(self.ended(self.lib.status_next, it, v.len()), "iteration", "a status goes on after its end");
        (self.lib.status_destroy)(it);
        Ok(Value::Array(v))
    }

    unsafe fn view(&self, it: P) -> Result<Value, Fail> {
        let mut v = Vec::new();
        while v.len() < self.most {
            let i = (self.lib.view_next)(it);
            if i.is_null() {
                break;
            }
            let mut lenses = Vec::new();
            while lenses.len() < self.most {
                let l = (self.lib.lens_next)((*i).lenses);
                if l.is_null() {
                    break;
                }
                ensure!(!(*l).lines.is_null(), "iteration", "a lens without lines");
                lenses.push(json!((*l).first_line_num));
                (self.lib.lens_destroy)(l);
            }
            ensure!(
                self.ended(self.lib.lens_next, (*i).lenses, lenses.len()),
                "iteration",
                "lenses go on after their end"
            );
            v.push(json!({
                "buffer": text_of((*i).buffer), "start": (*i).start, "end": (*i).end, "lenses": lenses,
            }));
            (self.lib.view_item_destroy)(i);
        }
        ensure!(self.ended(self.lib.view_next, it, v.len()), "iteration", "a view goes on after its end");
        (self.lib.view_destroy)(it);
        Ok(Value::Array(v))
    }
}

/// the start of every list
fn cut(v: &Value, most: usize) -> Value {
    match v {
        Value::Array(a) => a.iter().take(most).map(|v| cut(v, most)).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), cut(v, most))).collect(),
        v => v.clone(),
    }
}

fn hint_text(ls: &[Txt]) -> String {
    ls.iter()
        .map(|l| l.iter().map(|(s, _)| s.as_str()).collect::<String>())
        .collect::<Vec<_>>()
        .join("\n")
}

const TAGS: [&str; 8] = ["echo", "info", "menu", "status", "view", "error", "hint", "nothing"];

fn one_event(lib: &Lib, line: &SrvLine, ev: *mut Event, most: usize, destroy_first: bool) -> Res {
    let shown = String::from_utf8_lossy(&line.bytes()).into_owned();
    let tag = unsafe { (*ev).tag };
    let tag = TAGS.get(tag as usize).copied().unwrap_or("unknown");
    let want = match line {
        SrvLine::Echo(_) => "echo",
        SrvLine::Hint(_) => "hint",
        SrvLine::Info(..) => "info",
        SrvLine::Menu(_) => "menu",
        SrvLine::Status(_) => "status",
        SrvLine::View(_) => "view",
        SrvLine::Unknown(..) | SrvLine::IllTyped(..) | SrvLine::Response(..) => "nothing",
        SrvLine::Garbage(_) | SrvLine::NotUtf8(_) => "error",
    };
    // an ill-typed message may also be reported as an error
    let ok = tag == want || (matches!(line, SrvLine::IllTyped(..)) && tag == "error");
    ensure!(ok, "event", "a {} event for {:?}", tag, shown);
    let r = Read1 { lib, most };
    unsafe {
        let items = (*ev).payload.items;
        let info = (*ev).payload.info;
        let menu = (*ev).payload.menu;
        let message = (*ev).payload.message;
        if destroy_first {
            (lib.event_destroy)(ev);
        }
        match line {
            SrvLine::Echo(t) => {
                ensure_eq!(r.text(items)?, cut(&cjson(&text_json(t)), most), "content", "text of {:?}", shown)
            }
            SrvLine::Hint(ls) => {
                let got = Read1 { lib, most: 10_000 }.text(items)?;
                let got: String = got.as_array().unwrap().iter().filter_map(|f| f["text"].as_str()).collect();
                ensure_eq!(json!(got), c(&hint_text(ls)), "content", "text of {:?}", shown);
            }
            SrvLine::Info(a, s, _) => {
                ensure_eq!(json!(text_of(info.client)), c(a), "content", "client of {:?}", shown);
                ensure_eq!(json!(text_of(info.session)), c(s), "content", "session of {:?}", shown);
            }
            SrvLine::Menu(m) => {
                ensure_eq!(json!(text_of(menu.command)), c(&m.command), "content", "command of {:?}", shown);
                ensure_eq!(json!(text_of(menu.title)), c(&m.title), "content", "title of {:?}", shown);
                ensure_eq!(json!(text_of(menu.search)), c(&m.search), "content", "search of {:?}", shown);
                ensure_eq!(menu.selected, 0, "content", "selected entry of {:?}", shown);
                ensure!(!menu.items.is_null(), "content", "no items in {:?}", shown);
            }
            SrvLine::Status(s) => {
                let want: Vec<Value> = s.iter().map(|(i, t)| json!({"index": i, "text": cjson(&text_json(t))})).collect();
                ensure_eq!(r.status(items)?, cut(&json!(want), most), "content", "items of {:?}", shown)
            }
            SrvLine::View(v) => {
                let want: Vec<Value> = v
                    .iter()
                    .map(|(b, s, e, l)| {
                        json!({"buffer": c(b), "start": s, "end": e,
                            "lenses": l.iter().map(|(n, _)| *n).collect::<Vec<_>>()})
                    })
                    .collect();
                ensure_eq!(r.view(items)?, cut(&json!(want), most), "content", "items of {:?}", shown)
            }
            SrvLine::Garbage(_) | SrvLine::NotUtf8(_) => {
                let said = text_of(message).unwrap_or_default();
                ensure!(!said.is_empty(), "content", "an error without message for {:?}", shown);
            }
            _ => {}
        }
        if !destroy_first {
            (lib.event_destroy)(ev);
        }
    }
    Ok(())
}

fn next(lib: &Lib, conn: P, line: &SrvLine) -> Result<*mut Event, Fail> {
    let ev = unsafe { (lib.next_event)(conn) };
    if ev.is_null() {
        return Err(Fail::new("event", format!("no event for {:?}", String::from_utf8_lossy(&line.bytes()))));
    }
    Ok(ev)
}

fn events(lib: &Lib, tcp: bool, batches: &[(Vec<SrvLine>, u8, bool)], destroy_first: bool, cov: &mut Cov) -> Res {
    let (conn, mut peer) = connected(lib, tcp)?;
    for (lines, most, early) in batches {
        let mut all = Vec::new();
        for l in lines {
            all.extend(l.bytes());
            all.push(b'\n');
        }
        peer.write(&all).expect("HARNESS: write");
        let most = if *most > 3 { 10_000 } else { *most as usize };
        for (i, l) in lines.iter().enumerate() {
            let ev = next(lib, conn, l)?;
            one_event(lib, l, ev, most, *early)?;
            let b = l.bytes();
            let bad = matches!(l, SrvLine::Garbage(_) | SrvLine::NotUtf8(_) | SrvLine::IllTyped(..));
            cov.mark_if(bad && i + 1 < lines.len(), "malformed line followed by others");
            cov.mark_if(matches!(l, SrvLine::Hint(_)), "hint");
            cov.mark_if(
                serde_json::from_slice::<Value>(&b).is_ok_and(|v| holds_nul(&v)) && !bad,
                "NUL character in a string",
            );
            cov.hit_if(most < 4, "list left before its end");
            cov.hit_if(*early, "event destroyed first");
            cov.mark_if(matches!(l, SrvLine::View(v) if v.len() > 1), "view of several items");
            cov.mark_if(matches!(l, SrvLine::Status(v) if v.len() > 1), "status of several items");
        }
    }
    if destroy_first {
        unsafe { (lib.destroy)(conn) };
        ensure!(peer.closes(), "destroy", "a destroyed connection stays open");
        cov.hit("destroyed first");
        return Ok(());
    }
    // a last line without newline counts as well, and may be sent with others
    peer.write(b"{\"jsonrpc\":\"2.0\",\"method\":\"info\",\"params\":{\"client\":\"9\",\"session\":\"z\",\"cwd\":\"\"}}\n")
        .expect("HARNESS: write");
    drop(peer);
    let last = SrvLine::Info("9".into(), "z".into(), String::new());
    let ev = next(lib, conn, &last)?;
    one_event(lib, &last, ev, 10_000, false)?;
    for _ in 0..2 {
        let ev = unsafe { (lib.next_event)(conn) };
        ensure!(ev.is_null(), "event", "an event after the end of the connection");
    }
    unsafe { (lib.destroy)(conn) };
    Ok(())
}

/// a port taken by nobody who listens, and by nobody else meanwhile
fn deaf_port() -> (std::os::fd::OwnedFd, u16) {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        assert!(fd >= 0, "HARNESS: socket");
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        let mut n = std::mem::size_of_val(&a) as u32;
        let p = &mut a as *mut _ as *mut libc::sockaddr;
        assert!(libc::bind(fd, p, n) == 0 && libc::getsockname(fd, p, &mut n) == 0, "HARNESS: bind");
        (std::os::fd::OwnedFd::from_raw_fd(fd), u16::from_be(a.sin_port))
    }
}

fn refused(lib: &Lib, how: &How, lengths: &[i16], cov: &mut Cov) -> Res {
    let mut port_held = None;
    let name = match how {
        How::NoSuchDirectory => "no/such/session".to_string(),
        How::Stale => {
            let p = root().join("stale");
            let _ = std::fs::remove_file(&p);
            drop(UnixListener::bind(&p).expect("HARNESS: bind"));
            "stale".into()
        }
        How::NotASocket => {
            std::fs::write(root().join("plain"), "x").expect("HARNESS: write");
            "plain".into()
        }
        How::ClosedPort => {
            let (fd, port) = deaf_port();
            port_held = Some(fd);
            format!("@127.0.0.1:{}", port)
        }
        How::LongName => "l".repeat(200),
    };
    // what is missing would be started by a program that is not there
    std::env::set_var("CED_BIN", "/nonexistent/ced");
    last_error(lib);
    unsafe {
        ensure_eq!((lib.error_length)(), -1, "error", "length without error");
        let cname = CString::new(name.as_str()).unwrap();
        let p = (lib.create)(cname.as_ptr());
        drop(port_held);
        ensure!(p.is_null(), "error", "a connection to {:?}", name);
        let n = (lib.error_length)();
        ensure!(n > 0, "error", "no error for {:?}: length {}", name, n);
        ensure_eq!((lib.error_message)(std::ptr::null_mut(), 100), -1, "error", "null buffer");
        for k in lengths {
            let k = *k as c_int;
            // canaries all around
            let mut buf = vec![0xa5u8; 1000 + 600];
            let r = (lib.error_message)(buf.as_mut_ptr().add(300) as *mut c_char, k);
            let kept = if r < 0 { 0 } else { n as usize + 1 };
            ensure!(
                buf[..300].iter().chain(&buf[300 + kept..]).all(|b| *b == 0xa5),
                "error",
                "wrote outside of a buffer of {}",
                k
            );
            if k > n {
                ensure_eq!(r, n, "error", "result with a buffer of {}", k);
                let said = text_of(buf.as_ptr().add(300) as *const c_char).unwrap();
                ensure_eq!(said.len(), n as usize, "error", "length of {:?}", said);
                ensure_eq!((lib.error_length)(), -1, "error", "length once read");
                ensure_eq!((lib.error_message)(buf.as_mut_ptr() as *mut c_char, 100), 0, "error", "result without error");
                cov.mark("error message read");
                return Ok(());
            }
            ensure_eq!(r, -2, "error", "result with a buffer of {} for {}", k, n);
            ensure_eq!((lib.error_length)(), n, "error", "length after a buffer too small");
            cov.mark("buffer too small");
        }
    }
    Ok(())
}

fn two(lib: &Lib, tcp: bool, lines: &[(bool, SrvLine)], cov: &mut Cov) -> Res {
    let mut conns = [connected(lib, false)?, connected(lib, tcp)?];
    let mut all = [Vec::new(), Vec::new()];
    let mut sent = [0, 0];
    for (which, l) in lines {
        let b = &mut all[*which as usize];
        let was = b.len();
        b.extend(l.bytes());
        b.push(b'\n');
        // line by line as long as the socket takes it without being read
        if b.len() < 50_000 {
            conns[*which as usize].1.write(&b[was..]).expect("HARNESS: write");
            sent[*which as usize] = b.len();
        }
    }
    for (i, b) in all.iter().enumerate() {
        if sent[i] < b.len() {
            conns[i].1.write(&b[sent[i]..]).expect("HARNESS: write");
        }
    }
    for i in [true, false] {
        for (_, l) in lines.iter().filter(|(w, _)| *w == i) {
            let ev = next(lib, conns[i as usize].0, l)?;
            one_event(lib, l, ev, 10_000, false)?;
        }
    }
    cov.mark_if(lines.len() > 2, "two connections");
    for (p, peer) in conns {
        drop(peer);
        unsafe { (lib.destroy)(p) };
    }
    Ok(())
}

fn start(lib: &Lib, cov: &mut Cov) -> Res {
    let n = N.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    root();
    std::env::set_var("CED_BIN", bin("ced"));
    let name = format!("started{}", n);
    let cname = CString::new(name.as_str()).unwrap();
    unsafe {
        let p = (lib.create)(cname.as_ptr());
        if p.is_null() {
            return Err(Fail::new("start", format!("no session started: {:?}", last_error(lib))));
        }
        // the greeting says who this is
        for _ in 0..10 {
            let ev = (lib.next_event)(p);
            ensure!(!ev.is_null(), "start", "no greeting from the session started");
            let info = (*ev).payload.info;
            if (*ev).tag == 1 {
                ensure_eq!(text_of(info.client), Some("1".to_string()), "start", "client");
                ensure_eq!(text_of(info.session), Some(name), "start", "session");
                cov.mark("session started");
                return Ok(());
            }
        }
    }
    Err(Fail::new("start", "no information from the session started"))
}

fn version(lib: &Lib) -> Res {
    let toml = std::fs::read_to_string("/repo/remote-ffi/Cargo.toml").expect("HARNESS: read Cargo.toml");
    let v = toml
        .lines()
        .find_map(|l| l.strip_prefix("version = \""))
        .map(|v| v.trim_end_matches('"').to_owned())
        .expect("HARNESS: no version");
    let (numbers, pre) = v.split_once('-').unwrap_or((&v, ""));
    let mut want: Vec<String> = numbers.split('.').map(String::from).collect();
    want.push(pre.to_owned());
    unsafe {
        let p = (lib.version)();
        let got: Vec<String> = (*p).parts.iter().map(|p| text_of(*p).unwrap_or_default()).collect();
        (lib.version_destroy)(p);
        ensure_eq!(got, want, "version", "version");
    }
    Ok(())
}

pub struct C18;

impl Prop for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "the shared library is loaded and driven as a C program would, against a fake server on a Unix or TCP socket sending generated batches of every kind of line (malformed, ill-typed, unknown and non UTF-8 ones, strings with NUL characters), lists being read whole or in part, events destroyed before or after what they hold, two connections side by side; or against sessions that cannot be reached, the error being asked for with buffers of generated lengths; or a session that has to be started. Oracle: one event per line, of its kind, its reachable fields equal to what was sent. Non-trivial: several items, a hint, a malformed line among others, a NUL character, an error read.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the entries of a menu and the lines of a lens have no accessor in the C interface and are not compared",
        "NUL characters are replaced by U+FFFD in C strings",
        "the functions are called as the header says: no null or dangling pointers",
    ];
    type Case = Case;
    fn cases(tier: Tier) -> u64 {
        tier.pick(60_000, 2_000_000)
    }
    const SHRINK_STEPS: u32 = 600;
    const STALL_DETECT: bool = false;
    const AS_LIMIT_MB: u64 = 16_384;
    fn strategy(_tier: Tier) -> BoxedStrategy<Case> {
        let how = prop_oneof![
            Just(How::NoSuchDirectory),
            Just(How::Stale),
            Just(How::NotASocket),
            Just(How::ClosedPort),
            Just(How::LongName),
        ];
        let length = prop_oneof![3 => -2i16..80, 1 => Just(i16::MIN), 1 => Just(1000i16)];
        prop_oneof![
            10 => (
                prop::bool::weighted(0.02),
                prop::collection::vec((prop::collection::vec(srv_line(), 1..6), 0u8..8, any::<bool>()), 1..5),
                prop::bool::weighted(0.2),
            ).prop_map(|(tcp, batches, destroy_first)| Case::Events { tcp, batches, destroy_first }),
            2 => (how, prop::collection::vec(length, 1..5)).prop_map(|(h, l)| Case::Refused(h, l)),
            1 => (prop::bool::weighted(0.1), prop::collection::vec((any::<bool>(), srv_line()), 0..12)).prop_map(|(t, l)| Case::Two(t, l)),
        ]
        .boxed()
    }
    fn fixed(_tier: Tier) -> Vec<Case> {
        vec![Case::Start, Case::Start]
    }
    fn check(case: &Case, cov: &mut Cov) -> Res {
        LIB.with(|lib| {
            version(lib)?;
            match case {
                Case::Events { tcp, batches, destroy_first } => events(lib, *tcp, batches, *destroy_first, cov),
                Case::Refused(how, lengths) => refused(lib, how, lengths, cov),
                Case::Start => start(lib, cov),
                Case::Two(tcp, lines) => two(lib, *tcp, lines, cov),
            }
        })
    }
}
