//! C23: the terminal client, in a pseudo terminal, against a fake server.

use crate::conn::*;
use crate::engine::*;
use crate::program::{short, surroundings, write_cut, Dir, Group, Lines};
use crate::proto::{garbage, json_value, strings};
use crate::server::{bin, Proc};
use crate::{ensure, ensure_eq};
use ced::editor::Editor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(12);

// ----------------------------------------------------------------------- cases

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Key {
    Char(char),
    /// a control byte
    Ctrl(u8),
    Alt(char),
    Esc,
    Up,
    Down,
    Enter,
    Backspace,
    /// a key the client has no use for
    Other(u8),
}

const OTHERS: [&[u8]; 11] = [
    b"\x1b[C", b"\x1b[D", b"\x1b[H", b"\x1b[F", b"\x1b[5~", b"\x1b[6~", b"\x1b[3~", b"\t", b"\x1b[Z", b"\x1bOP",
    b"\x1b[15~",
];

impl Key {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Char(c) => c.to_string().into_bytes(),
            Key::Ctrl(b) => vec![*b],
            Key::Alt(c) => format!("\x1b{}", c).into_bytes(),
            Key::Esc => vec![0x1b],
            Key::Up => b"\x1b[A".to_vec(),
            Key::Down => b"\x1b[B".to_vec(),
            Key::Enter => vec![b'\r'],
            Key::Backspace => vec![0x7f],
            Key::Other(k) => OTHERS[*k as usize % OTHERS.len()].to_vec(),
        }
    }
    /// the character typed, with control or alt
    fn typed(&self) -> Option<(char, bool, bool)> {
        match self {
            Key::Char(c) => Some((*c, false, false)),
            Key::Alt(c) => Some((*c, false, true)),
            Key::Ctrl(0) => Some((' ', true, false)),
            Key::Ctrl(b @ 1..=0x1a) => Some(((b'a' + b - 1) as char, true, false)),
            Key::Ctrl(b @ 0x1c..=0x1f) => Some(((b'4' + b - 0x1c) as char, true, false)),
            _ => None,
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Step {
    /// lines of the server, in so many writes
    Server(Vec<SrvLine>, u8),
    /// the server answers the menu requests it received so far
    Answer(u8),
    /// so many of them, the oldest first
    AnswerSome(u8, u8),
    Key(Key),
    /// characters typed at once
    Burst(Vec<char>),
    Resize(u16, u16),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum End {
    /// the user quits
    Quit,
    /// the server closes the connection
    Close,
    /// at the very moment the user types
    CloseTyping,
    /// at the very moment the terminal is resized
    CloseResizing,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    size: (u16, u16),
    files: Vec<String>,
    /// log.txt cannot be written
    no_log: bool,
    steps: Vec<Step>,
    end: End,
}

// ------------------------------------------------------------------- emulation

#[derive(Clone, Copy, PartialEq, Debug)]
struct Cell {
    c: char,
    rev: bool,
    red: bool,
}

const BLANK: Cell = Cell { c: ' ', rev: false, red: false };

/// what a terminal makes of the bytes it is sent
struct Screen {
    w: usize,
    h: usize,
    rows: Vec<Vec<Cell>>,
    x: usize,
    y: usize,
    /// the last column was written: the next character goes to the next row
    full: bool,
    rev: bool,
    red: bool,
    alt: bool,
    hidden: bool,
    pending: Vec<u8>,
    /// a control character or sequence no client has a reason to send
    odd: Option<String>,
    clears: u64,
}

impl Screen {
    fn new(w: usize, h: usize) -> Screen {
        Screen {
            w,
            h,
            rows: vec![vec![BLANK; w]; h],
            x: 0,
            y: 0,
            full: false,
            rev: false,
            red: false,
            alt: false,
            hidden: false,
            pending: Vec::new(),
            odd: None,
            clears: 0,
        }
    }

    fn resize(&mut self, w: usize, h: usize) {
        self.w = w;
        self.h = h;
        // whatever a terminal does with its content, it is not what is expected
        self.rows = vec![vec![Cell { c: '\u{1}', rev: true, red: true }; w]; h];
        self.x = self.x.min(w.saturating_sub(1));
        self.y = self.y.min(h.saturating_sub(1));
        self.full = false;
    }

    fn feed(&mut self, bytes: &[u8]) {
        let mut all = std::mem::take(&mut self.pending);
        all.extend_from_slice(bytes);
        let mut i = 0;
        while i < all.len() {
            match self.one(&all[i..]) {
                Some(n) => i += n,
                None => break,
            }
        }
        self.pending = all[i..].to_vec();
    }

    /// the length of the first thing read, if it is complete
    fn one(&mut self, b: &[u8]) -> Option<usize> {
        if b[0] == 0x1b {
            if *b.get(1)? != b'[' {
                self.odd.get_or_insert(format!("ESC {:?}", b[1] as char));
                return Some(2);
            }
            let end = b.iter().skip(2).position(|c| (0x40..=0x7e).contains(c))? + 2;
            let args = String::from_utf8_lossy(&b[2..end]).into_owned();
            self.csi(&args, b[end]);
            return Some(end + 1);
        }
        let n = match b[0] {
            0..=0x7f => 1,
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            _ => 4,
        };
        if b.len() < n {
            return None;
        }
        match std::str::from_utf8(&b[..n]) {
            Ok(s) => self.put(s.chars().next().unwrap()),
            Err(_) => {
                self.odd.get_or_insert(format!("bytes {:?}", &b[..n]));
            }
        }
        Some(n)
    }

    fn feed_line(&mut self) {
        if self.y + 1 < self.h {
            self.y += 1;
        } else if self.h > 0 {
            self.rows.remove(0);
            self.rows.push(vec![BLANK; self.w]);
        }
    }

    fn put(&mut self, c: char) {
        match c {
            '\r' => {
                self.x = 0;
                self.full = false;
            }
            '\n' => {
                self.feed_line();
                self.full = false;
            }
            c if c.is_control() => {
                self.odd.get_or_insert(format!("control character {:?}", c));
            }
            c => {
                if self.w == 0 || self.h == 0 {
                    return;
                }
                if self.full {
                    self.full = false;
                    self.x = 0;
                    self.feed_line();
                }
                self.rows[self.y][self.x] = Cell { c, rev: self.rev, red: self.red };
                if self.x + 1 == self.w {
                    self.full = true;
                } else {
                    self.x += 1;
                }
            }
        }
    }

    fn csi(&mut self, args: &str, end: u8) {
        let nums: Vec<usize> = args.split(';').map(|a| a.parse().unwrap_or(0)).collect();
        match (end, args) {
            (b'h', "?1049") => {
                self.alt = true;
                self.rows = vec![vec![BLANK; self.w]; self.h];
            }
            (b'l', "?1049") => self.alt = false,
            (b'h', "?25") => self.hidden = false,
            (b'l', "?25") => self.hidden = true,
            (b'H', _) => {
                let y = nums[0].max(1) - 1;
                let x = nums.get(1).copied().unwrap_or(1).max(1) - 1;
                self.y = y.min(self.h.saturating_sub(1));
                self.x = x.min(self.w.saturating_sub(1));
                self.full = false;
            }
            (b'J', "2") => {
                self.clears += 1;
                self.rows = vec![vec![BLANK; self.w]; self.h];
            }
            (b'J', "" | "0") if self.h > 0 => {
                self.csi("", b'K');
                let (w, y) = (self.w, self.y);
                self.rows.iter_mut().skip(y + 1).for_each(|r| *r = vec![BLANK; w]);
            }
            (b'K', "" | "0") => {
                if self.h > 0 {
                    let x = self.x;
                    self.rows[self.y].iter_mut().skip(x).for_each(|c| *c = BLANK);
                }
            }
            (b'K', "2") => {
                if self.h > 0 {
                    self.rows[self.y] = vec![BLANK; self.w];
                }
            }
            (b'J', _) => {}
            (b'm', _) => {
                let mut i = 0;
                while i < nums.len() {
                    match nums[i] {
                        0 => {
                            self.rev = false;
                            self.red = false;
                        }
                        7 => self.rev = true,
                        27 => self.rev = false,
                        31 | 91 => self.red = true,
                        30..=37 | 39 | 90..=97 => self.red = false,
                        38 if nums.get(i + 1) == Some(&5) => {
                            self.red = matches!(nums.get(i + 2), Some(1 | 9));
                            i += 2;
                        }
                        _ => {}
                    }
                    i += 1;
                }
            }
            // cursor moves, styles and modes nobody has a reason to look at
            (b'A'..=b'G' | b'd' | b'h' | b'l' | b's' | b'u' | b'q', _) => {
                self.odd.get_or_insert(format!("CSI {} {}", args, end as char));
            }
            _ => {
                self.odd.get_or_insert(format!("CSI {} {}", args, end as char));
            }
        }
    }

    fn show(&self) -> String {
        self.rows.iter().map(|r| r.iter().map(|c| c.c).collect::<String>()).map(|l| format!("{:?}", l.trim_end())).collect::<Vec<_>>().join("\n")
    }
}

// ----------------------------------------------------------------------- model

/// a cell of the expected screen; nothing is said of what is none
#[derive(Clone, Copy, PartialEq, Debug)]
struct Want {
    c: Option<char>,
    rev: Option<bool>,
    red: Option<bool>,
}

const NOTHING: Want = Want { c: Some(' '), rev: Some(false), red: None };

type Grid = Vec<Vec<Want>>;

/// characters which take one column, surely
fn narrow(c: char) -> bool {
    matches!(c, ' '..='~' | '\u{a1}'..='\u{ac}' | '\u{ae}'..='\u{24f}' | 'α'..='ω' | 'А'..='я' | '·' | '─' | '│' | '╭' | '╮' | '╰' | '╯')
        || c.is_control()
}

fn plain(s: &str) -> bool {
    s.chars().all(narrow)
}

fn plain_txt(t: &Txt) -> bool {
    t.iter().all(|(s, _)| plain(s))
}

fn wanted(c: char, rev: Option<bool>, red: Option<bool>) -> Want {
    Want { c: if c.is_control() { None } else { Some(c) }, rev, red }
}

fn cells(s: &str, rev: Option<bool>) -> Vec<Want> {
    s.chars().map(|c| wanted(c, rev, None)).collect()
}

fn txt_cells(t: &Txt) -> Vec<Want> {
    t.iter()
        .flat_map(|(s, f)| {
            let (rev, red) = (FACES[*f as usize % 5] == "Selection", FACES[*f as usize % 5] == "Error");
            s.chars().map(move |c| wanted(c, Some(rev), Some(red)))
        })
        .collect()
}

#[derive(Clone)]
struct Model {
    w: usize,
    h: usize,
    view: Vec<ViewItemLine>,
    echo: Option<Txt>,
    status: Vec<(i32, Txt)>,
    menu: Option<(MenuLine, usize)>,
    /// searches asked for and not answered
    searches: VecDeque<String>,
    client: Option<usize>,
    /// what is on the screen, when it is known
    screen: Option<Grid>,
}

impl Model {
    fn blind(&self) -> bool {
        self.w == 0 || self.h == 0
    }

    fn fit(&self, mut row: Vec<Want>) -> Vec<Want> {
        row.truncate(self.w);
        row.resize(self.w, NOTHING);
        row
    }

    fn state_plain(&self) -> bool {
        self.view.iter().all(|(b, _, _, ls)| plain(b) && ls.iter().all(|(_, ls)| ls.iter().all(plain_txt)))
            && self.echo.iter().all(plain_txt)
            && self.status.iter().all(|(_, t)| plain_txt(t))
    }

    /// none when the row is not on the screen
    fn status_row(&self) -> Vec<Want> {
        let mut row: Vec<Want> = self
            .echo
            .iter()
            .flat_map(txt_cells)
            .map(|c| Want { rev: Some(true), ..c })
            .take(self.w)
            .collect();
        let status: Vec<String> =
            self.status.iter().map(|(_, t)| t.iter().map(|(s, _)| s.as_str()).collect()).collect();
        let status = cells(&status.join("·"), Some(true));
        let left = self.w - row.len();
        if status.len() < left {
            row.resize(self.w - status.len(), Want { rev: Some(true), ..NOTHING });
            row.extend(status);
        } else if left > 0 {
            row.push(Want { rev: Some(true), ..NOTHING });
            row.extend_from_slice(&status[status.len() - (left - 1)..]);
        }
        row
    }

    fn view_grid(&self) -> Option<Grid> {
        if !self.state_plain() {
            return None;
        }
        let mut rows = Vec::new();
        for (buffer, start, end, lenses) in &self.view {
            let mut header = cells(&format!("-[{}][{}:{}]", buffer, start, end), Some(false));
            header.resize(header.len().max(self.w), Want { c: Some('-'), ..NOTHING });
            rows.push(self.fit(header));
            for (_, lines) in lenses {
                rows.extend(lines.iter().map(|l| self.fit(txt_cells(l))));
            }
        }
        rows.truncate(self.h.saturating_sub(1));
        rows.resize(self.h.saturating_sub(1), self.fit(Vec::new()));
        if self.h > 0 {
            rows.push(self.status_row());
        }
        Some(rows)
    }

    fn menu_grid(&self) -> Option<Grid> {
        let (menu, selected) = self.menu.as_ref()?;
        if !plain(&menu.title) || !plain(&menu.search) || !menu.entries.iter().all(|(_, t, _)| plain_txt(t)) {
            return None;
        }
        let mut rows = Vec::new();
        let mut title = cells(&format!("{}:{}", menu.title, menu.search), Some(true));
        title.resize(title.len().max(self.w), Want { rev: Some(true), ..NOTHING });
        rows.push(self.fit(title));
        for (i, (_, text, _)) in menu.entries.iter().enumerate() {
            let row: Vec<Want> =
                txt_cells(text).into_iter().map(|c| Want { rev: Some(i == *selected), red: None, ..c }).collect();
            rows.push(self.fit(row));
        }
        rows.truncate(self.h);
        rows.resize(self.h, self.fit(Vec::new()));
        Some(rows)
    }

    fn draw(&mut self) {
        self.screen = if self.menu.is_some() { self.menu_grid() } else { self.view_grid() };
    }

    /// a message of the server; true when it cannot be read
    fn apply(&mut self, line: &SrvLine) -> bool {
        match line {
            SrvLine::Echo(t) => self.echo = Some(t.clone()),
            SrvLine::View(v) => self.view = v.clone(),
            SrvLine::Status(s) => {
                self.status = s.clone();
                let known = self.menu.is_none() && self.state_plain();
                let (h, row) = (self.h, self.status_row());
                match &mut self.screen {
                    Some(g) if known && h > 0 => g[h - 1] = row,
                    Some(_) if known => {}
                    s => *s = None,
                }
                return false;
            }
            SrvLine::Hint(lines) => {
                if self.menu.is_some() || !lines.iter().all(plain_txt) {
                    self.screen = None;
                } else if let Some(g) = &mut self.screen {
                    let lines: Vec<Vec<Want>> = lines.iter().map(txt_cells).collect();
                    let width = lines.iter().map(|l| l.len()).max().unwrap_or(0).min(self.w);
                    let top = self.h - lines.len().min(self.h);
                    for (i, l) in lines.iter().enumerate().take(self.h) {
                        for (k, c) in l.iter().enumerate().take(width) {
                            g[top + i][self.w - width + k] = Want { rev: Some(true), ..*c };
                        }
                    }
                }
                return false;
            }
            SrvLine::Menu(m) => {
                self.menu = Some((m.clone(), 0));
                self.echo = None;
                if self.searches.pop_front().as_ref() != Some(&m.search) {
                    self.searches.clear();
                }
                self.draw();
                return false;
            }
            SrvLine::Info(c, _, _) => {
                self.client = c.parse().ok();
                return false;
            }
            SrvLine::Garbage(_) | SrvLine::NotUtf8(_) => return true,
            _ => return false,
        }
        // a view drawn while a menu is open: which of them is seen is not told
        self.draw();
        if self.menu.is_some() {
            self.screen = None;
        }
        false
    }
}

fn matches(got: &[Vec<Cell>], want: &Grid) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| {
            g.len() == w.len()
                && g.iter().zip(w).all(|(g, w)| {
                    w.c.map_or(!g.c.is_control() && !LETTERS.contains(&g.c), |c| c == g.c)
                        && w.rev.map_or(true, |r| r == g.rev)
                        && w.red.map_or(true, |r| r == g.red)
                })
        })
}

/// the same screen may be taken for both
fn alike(a: &Option<Grid>, b: &Option<Grid>) -> bool {
    fn same<T: PartialEq>(a: Option<T>, b: Option<T>) -> bool {
        a.is_none() || b.is_none() || a == b
    }
    match (a, b) {
        (Some(a), Some(b)) => {
            a.len() == b.len()
                && a.iter().flatten().zip(b.iter().flatten()).all(|(a, b)| {
                    let letter = [a.c, b.c].iter().flatten().any(|c| LETTERS.contains(c));
                    (if letter { a.c == b.c } else { same(a.c, b.c) }) && same(a.rev, b.rev) && same(a.red, b.red)
                })
        }
        _ => true,
    }
}

/// letters no content has
const LETTERS: [char; 12] = ['Ɖ', 'Ǝ', 'Ɣ', 'Ɩ', 'Ɔ', 'Ƥ', 'Ʀ', 'Ʃ', 'Ʊ', 'Ʒ', 'Ƴ', 'Ƕ'];

// --------------------------------------------------------------------- running

struct Run<'a> {
    child: Group,
    err: Lines,
    term: Arc<(Mutex<Screen>, Condvar)>,
    master: std::fs::File,
    slave: OwnedFd,
    peer: UnixStream,
    received: Lines,
    m: Model,
    /// the requests expected so far
    want: Vec<Value>,
    checked: usize,
    /// searches received by the server and not answered
    asked: VecDeque<Value>,
    letter: usize,
    /// an unreadable line was sent, maybe not read yet
    unread: bool,
    files: usize,
    log: std::path::PathBuf,
    cov: &'a mut Cov,
}

fn termios(fd: &OwnedFd) -> (u32, u32, u32, u32, Vec<u8>) {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        assert_eq!(libc::tcgetattr(fd.as_raw_fd(), &mut t), 0, "HARNESS: tcgetattr");
        (t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc.to_vec())
    }
}

fn set_size(fd: &impl AsRawFd, w: u16, h: u16) {
    let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
    let r = unsafe { libc::ioctl(fd.as_raw_fd(), libc::TIOCSWINSZ, &ws) };
    assert_eq!(r, 0, "HARNESS: set the size of the terminal");
}

fn open_terminal(w: u16, h: u16) -> (OwnedFd, OwnedFd) {
    let (mut m, mut s) = (0, 0);
    let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
    let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) };
    assert_eq!(r, 0, "HARNESS: open a terminal: {}", std::io::Error::last_os_error());
    unsafe {
        for fd in [m, s] {
            libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s))
    }
}

impl Run<'_> {
    fn fail<T>(&mut self, sig: &str, msg: String) -> Result<T, Fail> {
        let state = match self.child.0 .0.try_wait() {
            Ok(Some(s)) => format!("ended: {}", s),
            _ => "running".into(),
        };
        let panicked = self.err.wait(Duration::from_millis(100), |g| {
            let i = g.lines.iter().position(|l| String::from_utf8_lossy(l).contains("panicked"))?;
            Some(g.lines[i..g.lines.len().min(i + 3)].iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect::<Vec<_>>().join(" | "))
        });
        let err = panicked.unwrap_or_else(|| self.err.show());
        // what it noted last
        let log = std::fs::read(&self.log).unwrap_or_default();
        let log = String::from_utf8_lossy(&log);
        let noted: Vec<String> = log.lines().rev().take(8).map(short).collect();
        let err = format!("{}; noted, the last first: {}", err, noted.join(" < "));
        let s = self.term.0.lock().unwrap();
        let msg = format!("{}; the program is {}; errors {}; the screen of {}x{} shows\n{}", msg, state, err, s.w, s.h, s.show());
        Err(Fail::new(sig, msg))
    }

    fn ended(&mut self) -> bool {
        matches!(self.child.0 .0.try_wait(), Ok(Some(_)))
    }

    fn wait(&mut self, d: Duration, mut f: impl FnMut(&Screen) -> bool) -> bool {
        let end = Instant::now() + d;
        let term = self.term.clone();
        let mut s = term.0.lock().unwrap();
        loop {
            if f(&s) {
                return true;
            }
            let now = Instant::now();
            if now >= end {
                return false;
            }
            s = term.1.wait_timeout(s, (end - now).min(Duration::from_millis(100))).unwrap().0;
            if self.ended() {
                // what it wrote before may still be on the way
                drop(s);
                std::thread::sleep(Duration::from_millis(50));
                s = term.0.lock().unwrap();
                return f(&s);
            }
        }
    }

    /// the screen becomes what is expected
    fn shown(&mut self, what: &str) -> Res {
        let Some(want) = self.m.screen.clone() else { return Ok(()) };
        if self.m.blind() {
            // nothing to see: whatever it draws, it goes on
            return Ok(());
        }
        if !self.wait(PATIENCE, |s| matches(&s.rows, &want)) {
            let lines: Vec<String> = want
                .iter()
                .map(|r| {
                    let l: String = r.iter().map(|c| c.c.unwrap_or('¿')).collect();
                    let rev: Vec<usize> = r.iter().enumerate().filter(|c| c.1.rev == Some(true)).map(|c| c.0).collect();
                    format!("{:?} {}", l.trim_end(), if rev.is_empty() { String::new() } else { format!("reversed {:?}", rev) })
                })
                .collect();
            return self.fail(what, format!("{}: expected\n{}\n", what, lines.join("\n")));
        }
        let odd = self.term.0.lock().unwrap().odd.clone();
        if let Some(odd) = odd {
            return self.fail("control", format!("the terminal was sent {}", odd));
        }
        Ok(())
    }

    /// the requests expected so far arrive, and no other
    fn requested(&mut self, what: &str) -> Res {
        let n = self.want.len();
        let end = Instant::now() + PATIENCE;
        let got = loop {
            let got = self.received.wait(Duration::from_millis(200), |g| {
                if g.lines.len() >= n || g.eof {
                    Some(g.lines.clone())
                } else {
                    None
                }
            });
            match got {
                Some(got) => break got,
                None if Instant::now() > end || self.ended() => {
                    break self.received.wait(PATIENCE, |g| Some(g.lines.clone())).unwrap()
                }
                None => {}
            }
        };
        for i in self.checked..n {
            let want = self.want[i].clone();
            let Some(l) = got.get(i) else {
                return self.fail(what, format!("{}: no request {} of {}: {}", what, i, n, want));
            };
            let v: Value = match serde_json::from_slice(l) {
                Ok(v) => v,
                Err(e) => return self.fail(what, format!("{}: not JSON: {} {:?}", what, e, short(&String::from_utf8_lossy(l)))),
            };
            let (method, params) = (v["method"].clone(), v["params"].clone());
            ensure_eq!(method, want["method"], what, "{}: request {}: {}", what, i, v);
            if want["params"] != json!("any") {
                ensure_eq!(params, want["params"], what, "{}: request {}", what, i);
            }
            if want["client"].is_u64() {
                self.error_shown(want["client"].as_u64().unwrap() as usize, &v)?;
            }
            if method == json!("menu") {
                self.asked.push_back(params);
            }
        }
        self.checked = n;
        if got.len() > n {
            return self.fail(what, format!("{}: one request too many: {}", what, short(&String::from_utf8_lossy(&got[n]))));
        }
        Ok(())
    }

    /// the request makes the server show an error to its client
    fn error_shown(&mut self, client: usize, request: &Value) -> Res {
        let (tx, rx) = async_channel::unbounded();
        let mut editor = Editor::new("", tx);
        editor.add_client(client);
        while rx.try_recv().is_ok() {}
        let response = editor.handle(client, &request.to_string());
        let mut seen = false;
        while let Ok(bm) = rx.try_recv() {
            let v: Value = serde_json::from_str(&bm.message.to_string()).expect("HARNESS: a notification");
            let error = v["params"].as_array().is_some_and(|a| a.iter().any(|f| f["face"] == json!("Error")));
            seen |= v["method"] == json!("echo") && error && bm.should_notify(client);
        }
        ensure!(seen, "error", "an unreadable line is told with {}, which shows no error: {:?}", request, response.map(|r| r.to_string()).ok());
        Ok(())
    }

    fn request(&mut self, method: &str, params: Value) {
        self.want.push(json!({"method": method, "params": params}));
    }

    /// lines of the server, and more so that the screen tells when they are read
    fn server(&mut self, lines: &[SrvLine], cuts: u8) -> Res {
        let mut sent: Vec<SrvLine> = Vec::new();
        let mut seen = vec![self.m.screen.clone()];
        for l in lines {
            if self.m.blind() && matches!(l, SrvLine::Hint(_)) {
                continue;
            }
            // an error is told with the number known by then, or a later one
            let unreadable = sent.iter().any(|l| matches!(l, SrvLine::Garbage(_) | SrvLine::NotUtf8(_)));
            if (unreadable || self.unread) && matches!(l, SrvLine::Info(..)) {
                continue;
            }
            self.one(l, &mut sent);
            seen.push(self.m.screen.clone());
        }
        let mut guard = 0;
        while self.m.screen.is_none() || !self.m.state_plain() || (!self.m.blind() && seen[..seen.len() - 1].iter().any(|s| match s {
                None => guard == 0,
                s => alike(s, &self.m.screen),
            })) {
            guard += 1;
            assert!(guard < 40, "HARNESS: no way to tell what the screen shows");
            self.letter = (self.letter + 1) % LETTERS.len();
            let letter = LETTERS[self.letter].to_string();
            if !self.m.state_plain() {
                self.one(&SrvLine::View(vec![("plain".into(), 1, 2, vec![(1, vec![vec![("x".into(), 0)]])])]), &mut sent);
                self.one(&SrvLine::Status(vec![(0, vec![("st".into(), 0)])]), &mut sent);
                seen.push(self.m.screen.clone());
            }
            if let Some((menu, _)) = self.m.menu.clone() {
                let mut menu = menu;
                menu.title = letter + &menu.title.chars().filter(|c| narrow(*c)).collect::<String>();
                menu.search.retain(narrow);
                if !menu.entries.iter().all(|(_, t, _)| plain_txt(t)) {
                    menu.entries = vec![("v".into(), vec![("one".into(), 0)], None), ("w".into(), vec![("two".into(), 2)], None)];
                }
                self.one(&SrvLine::Menu(menu), &mut sent);
            } else {
                let mut echo: Txt = vec![(letter, 0)];
                let old = self.m.echo.clone().unwrap_or_default();
                if plain_txt(&old) {
                    // the former letters go away
                    echo.extend(old.into_iter().filter(|(s, _)| !s.starts_with(LETTERS)));
                }
                self.one(&SrvLine::Echo(echo), &mut sent);
            }
            seen.push(self.m.screen.clone());
        }
        self.unread = self.m.blind()
            && (self.unread || sent.iter().any(|l| matches!(l, SrvLine::Garbage(_) | SrvLine::NotUtf8(_))));
        let mut bytes = Vec::new();
        for l in &sent {
            bytes.extend(l.bytes());
            bytes.push(b'\n');
        }
        write_cut(&mut self.peer, &bytes, cuts);
        self.shown("screen")?;
        self.requested("error")
    }

    fn one(&mut self, l: &SrvLine, sent: &mut Vec<SrvLine>) {
        if self.m.apply(l) {
            self.cov.hit("unreadable line");
            if let Some(c) = self.m.client {
                self.want.push(json!({"method": "exec", "params": "any", "client": c}));
            }
        }
        match l {
            SrvLine::Hint(_) => self.cov.hit("hint"),
            SrvLine::Menu(_) => self.cov.hit("menu"),
            _ => {}
        }
        sent.push(l.clone());
    }

    fn press(&mut self, bytes: &[u8]) {
        self.master.write_all(bytes).expect("HARNESS: type");
    }

    /// what is asked for when a character is typed
    fn typed(&mut self, (c, ctrl, alt): (char, bool, bool)) {
        if self.m.menu.is_some() {
            self.refine(|s| s.push(c));
            return;
        }
        match (c, ctrl) {
            ('d' | 'e', true) => self.request("exec", json!("any")),
            ('f', true) => self.request("menu", json!({"command": "open", "search": ""})),
            ('p', true) => self.request("menu", json!({"command": "", "search": ""})),
            ('v', true) => self.request("menu", json!({"command": "view_select", "search": ""})),
            _ => {
                let key = json!({"ctrl": ctrl, "alt": alt, "shift": c.is_uppercase(), "key": {"Char": c}});
                self.request("keys", json!([key]))
            }
        }
    }

    fn refine(&mut self, f: impl FnOnce(&mut String)) {
        let (menu, _) = self.m.menu.as_ref().unwrap();
        let mut search = self.m.searches.back().unwrap_or(&menu.search).clone();
        f(&mut search);
        self.m.searches.push_back(search.clone());
        let command = menu.command.clone();
        self.request("menu", json!({"command": command, "search": search}));
    }

    fn key(&mut self, key: &Key) -> Res {
        // without a screen there is no telling which lines were read before the key
        if self.m.blind() || matches!(key, Key::Ctrl(0x18) | Key::Ctrl(9) | Key::Ctrl(13) | Key::Ctrl(0x1b) | Key::Alt('[' | 'O')) {
            return Ok(());
        }
        let before = self.want.len();
        let menu = self.m.menu.clone();
        match (key, menu) {
            (Key::Alt('q'), None) => return Ok(()),
            (k, _) if k.typed().is_some() => {
                self.typed(k.typed().unwrap());
            }
            (Key::Backspace, Some(_)) => {
                self.cov.hit("menu: backspace");
                self.refine(|s| {
                    s.pop();
                })
            }
            (Key::Esc, Some(_)) => {
                let old = self.m.clone();
                self.m.menu = None;
                self.m.searches.clear();
                self.m.draw();
                if alike(&self.m.screen, &old.screen) {
                    self.m = old;
                    return Ok(());
                }
                self.cov.hit("menu: cancelled");
            }
            (Key::Esc, None) => {
                let key = json!({"ctrl": false, "alt": false, "shift": false, "key": "Escape"});
                self.request("keys", json!([key]));
            }
            (Key::Enter, Some((m, n))) => {
                self.m.searches.clear();
                if let Some((value, _, _)) = m.entries.get(n) {
                    let choice = if value.is_empty() { &m.search } else { value };
                    self.request("menu-select", json!({"command": m.command, "choice": choice}));
                    self.m.menu = None;
                    self.m.draw();
                    self.cov.mark("menu: entry selected");
                    self.cov.mark_if(n > 0, "menu: further entry selected");
                }
            }
            (Key::Up, Some((m, n))) => {
                self.m.menu = Some((m, n.saturating_sub(1)));
                self.m.draw();
            }
            (Key::Down, Some((m, n))) => {
                let last = m.entries.len().saturating_sub(1);
                self.m.menu = Some((m, (n + 1).min(last)));
                self.m.draw();
            }
            _ => {}
        }
        self.press(&key.bytes());
        self.cov.hit("key");
        self.requested("request")?;
        self.shown("screen")?;
        if self.want.len() == before {
            // nothing to see: another key tells when it is read
            self.rest()?;
        }
        Ok(())
    }

    /// a key tells that whatever was to be drawn before is drawn
    fn rest(&mut self) -> Res {
        self.typed(('z', false, false));
        self.press(b"z");
        self.requested("request")
    }

    fn step(&mut self, step: &Step) -> Res {
        match step {
            Step::Server(lines, cuts) => self.server(lines, *cuts),
            Step::Answer(entries) | Step::AnswerSome(_, entries) => {
                let n = if let Step::AnswerSome(n, _) = step { *n as usize } else { self.asked.len() };
                let mut lines = Vec::new();
                self.cov.mark_if(n > 0 && n < self.asked.len() && self.m.menu.is_some(), "menu: partly answered");
                for p in self.asked.drain(..n.min(self.asked.len())) {
                    lines.push(SrvLine::Menu(MenuLine {
                        command: p["command"].as_str().unwrap_or("").into(),
                        title: "T".into(),
                        search: p["search"].as_str().unwrap_or("").into(),
                        entries: (0..*entries).map(|i| (format!("v{}", i), vec![(format!("e{}", i), (i % 2) * 2)], None)).collect(),
                    }));
                }
                if lines.is_empty() {
                    return Ok(());
                }
                self.server(&lines, 0)
            }
            Step::Key(k) => self.key(k),
            Step::Burst(chars) => {
                if self.m.blind() || chars.is_empty() {
                    return Ok(());
                }
                for c in chars {
                    self.typed((*c, false, false));
                }
                self.cov.mark_if(chars.len() > 1 && self.m.menu.is_some(), "menu: burst");
                self.press(chars.iter().collect::<String>().as_bytes());
                self.requested("request")
            }
            Step::Resize(w, h) => {
                if (*w as usize, *h as usize) == (self.m.w, self.m.h) {
                    return Ok(());
                }
                let blind = self.m.blind();
                if !blind {
                    // what is drawn for the old size must not pass for the new one
                    self.rest()?;
                }
                self.m.w = *w as usize;
                self.m.h = *h as usize;
                self.m.draw();
                let clears = {
                    let mut s = self.term.0.lock().unwrap();
                    s.resize(self.m.w, self.m.h);
                    s.clears
                };
                set_size(&self.master, *w, *h);
                self.cov.mark("resized");
                if self.m.blind() {
                    self.cov.hit("no room at all");
                    self.wait(Duration::from_millis(30), |s| s.clears > clears);
                    return if self.ended() { self.fail("exit", format!("resized to {}x{}", w, h)) } else { Ok(()) };
                }
                self.shown("screen")?;
                if blind {
                    // whatever was sent before is read as well
                    return self.server(&[], 0);
                }
                Ok(())
            }
        }
    }

    fn end(&mut self, end: End, before: (u32, u32, u32, u32, Vec<u8>)) -> Res {
        if end == End::Quit && !self.m.blind() {
            if self.m.menu.is_some() {
                self.key(&Key::Esc)?;
            }
            if self.m.menu.is_some() {
                return Ok(());
            }
            self.press(b"\x1bq");
            self.cov.hit("quit");
        } else {
            let _ = self.peer.shutdown(std::net::Shutdown::Write);
            match end {
                End::CloseTyping => self.press(b"typed"),
                End::CloseResizing => set_size(&self.master, 33, 11),
                _ => {}
            }
            self.cov.hit("connection closed");
        }
        match self.child.0.wait(PATIENCE) {
            Some(s) if s.code() == Some(0) => {}
            Some(s) => return self.fail("exit", format!("the client ends with {}", s)),
            None => return self.fail("exit", format!("the client does not end ({:?})", end)),
        }
        if !self.wait(Duration::from_secs(2), |s| !s.alt && !s.hidden) {
            let s = self.term.0.lock().unwrap();
            let m = format!("the terminal is not restored: alternate screen {}, hidden cursor {}", s.alt, s.hidden);
            drop(s);
            return self.fail("restore", m);
        }
        ensure_eq!(termios(&self.slave), before, "restore", "the attributes of the terminal");
        if end == End::CloseTyping {
            return Ok(());
        }
        self.requested("request")
    }
}

fn run(case: &Case, cov: &mut Cov) -> Res {
    let dir = Dir::new();
    if case.no_log {
        std::fs::create_dir(dir.0.join("cwd/log.txt")).expect("HARNESS: make a directory");
    }
    let sessions = dir.0.join("ced-u");
    std::fs::create_dir_all(&sessions).expect("HARNESS: make a directory");
    let listener = UnixListener::bind(sessions.join("s")).expect("HARNESS: bind");
    let (w, h) = case.size;
    let (master, slave) = open_terminal(w, h);
    let before = termios(&slave);
    let term = Arc::new((Mutex::new(Screen::new(w as usize, h as usize)), Condvar::new()));
    let mut c = Command::new(bin("ced"));
    c.args(["-m", "term", "-s", "s", "--"]).args(&case.files);
    surroundings(&mut c, &dir.0);
    let end = || Stdio::from(slave.try_clone().expect("HARNESS: clone"));
    c.env("TERM", "xterm").env_remove("NO_COLOR").stdin(end()).stdout(end()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            if libc::setsid() < 0 || libc::ioctl(0, libc::TIOCSCTTY, 0) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = Group(Proc::spawn(&mut c));
    drop(c);
    let err = Lines::start(child.0 .0.stderr.take().expect("HARNESS: stderr"));
    let master = std::fs::File::from(master);
    let (mut reader, shared) = (master.try_clone().expect("HARNESS: clone"), term.clone());
    std::thread::spawn(move || {
        let mut buf = [0u8; 65536];
        while let Ok(n) = reader.read(&mut buf) {
            if n == 0 {
                return;
            }
            shared.0.lock().unwrap().feed(&buf[..n]);
            shared.1.notify_all();
        }
    });
    listener.set_nonblocking(true).expect("HARNESS: non blocking");
    let limit = Instant::now() + PATIENCE;
    let peer = loop {
        match listener.accept() {
            Ok((s, _)) => break Some(s),
            Err(_) if Instant::now() > limit || matches!(child.0 .0.try_wait(), Ok(Some(_))) => break None,
            Err(_) => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let Some(peer) = peer else {
        return Err(Fail::new("connection", format!("the client does not connect: {}", err.show())));
    };
    peer.set_nonblocking(false).expect("HARNESS: blocking");
    let received = Lines::start(peer.try_clone().expect("HARNESS: clone"));
    let m = Model {
        w: w as usize,
        h: h as usize,
        view: vec![],
        echo: None,
        status: vec![],
        menu: None,
        searches: VecDeque::new(),
        client: None,
        screen: None,
    };
    let mut r = Run {
        child,
        err,
        term,
        master,
        slave,
        peer,
        received,
        m,
        want: vec![],
        checked: 0,
        asked: VecDeque::new(),
        letter: 0,
        unread: false,
        files: case.files.len(),
        log: dir.0.join("cwd/log.txt"),
        cov,
    };
    for f in &case.files {
        r.request("edit", json!({"name": f, "scratch": false}));
    }
    r.cov.hit_if(r.files > 0, "files");
    r.requested("files")?;
    // keys typed when it starts
    r.typed(('z', false, false));
    r.press(b"z");
    r.requested("request")?;
    r.m.screen = Some(vec![vec![NOTHING; w as usize]; h as usize]);
    r.shown("start")?;
    if !r.wait(PATIENCE, |s| s.alt && s.hidden) {
        return r.fail("start", "no alternate screen or the cursor is shown".into());
    }
    for s in &case.steps {
        r.step(s)?;
        if r.ended() {
            return r.fail("exit", format!("the client ends after {:?}", s));
        }
    }
    r.cov.hit_if(case.no_log, "no log");
    r.end(case.end, before)
}

// ------------------------------------------------------------------ generators

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-d ]{0,6}",
        3 => "[a-z ]{0,40}",
        2 => "[aé ßΩя─]{0,12}".prop_map(|s| s.replace('Ω', "ω")),
        2 => prop::collection::vec(prop::sample::select(vec!["\t", "\u{1b}", "\u{7}", "\r", "\u{8}", "\u{1b}[2J", "\u{1b}[31m", "\u{9b}", "\u{7f}", "\u{0}", "ab"]), 0..4)
            .prop_map(|v| v.concat()),
        1 => "[a-z]{80,300}",
        1 => crate::gen::line(6),
    ]
    .boxed()
}

fn words() -> BoxedStrategy<Txt> {
    prop::collection::vec((word(), 0u8..5), 0..4).boxed()
}

fn view() -> BoxedStrategy<Vec<ViewItemLine>> {
    let lines = prop_oneof![
        4 => prop::collection::vec(words(), 0..5),
        1 => prop::collection::vec(words(), 20..50),
    ];
    let lens = (0u32..2000, lines);
    prop::collection::vec((word(), 0u32..2000, 0u32..2_000_000, prop::collection::vec(lens, 0..3)), 0..4).boxed()
}

fn menu() -> BoxedStrategy<MenuLine> {
    let value = prop_oneof![1 => Just(String::new()), 4 => "[a-c]{1,2}", 1 => strings()];
    let entries = |n| prop::collection::vec((value.clone(), words(), prop::option::of(strings())), n);
    (strings(), word(), word(), prop_oneof![5 => entries(0..6), 1 => entries(20..40)])
        .prop_map(|(command, title, search, entries)| MenuLine { command, title, search, entries })
        .boxed()
}

fn server_line() -> BoxedStrategy<SrvLine> {
    let _ = json_value();
    prop_oneof![
        4 => words().prop_map(SrvLine::Echo),
        3 => prop_oneof![4 => prop::collection::vec(words(), 0..6), 1 => prop::collection::vec(words(), 20..40)]
            .prop_map(SrvLine::Hint),
        2 => (prop_oneof![4 => (0u32..50).prop_map(|n| n.to_string()), 1 => "[a-z]{0,3}"], strings(), strings())
            .prop_map(|(a, b, c)| SrvLine::Info(a, b, c)),
        4 => menu().prop_map(SrvLine::Menu),
        4 => prop::collection::vec((any::<i32>(), words()), 0..4).prop_map(SrvLine::Status),
        6 => view().prop_map(SrvLine::View),
        2 => srv_line().prop_filter("no drawing", |l| matches!(l, SrvLine::Unknown(..) | SrvLine::IllTyped(..) | SrvLine::Response(..))),
        1 => garbage().prop_filter("one line", |s| !s.contains('\n')).prop_map(SrvLine::Garbage),
        1 => Just(SrvLine::NotUtf8(vec![b'{', 0xff])),
    ]
    .boxed()
}

fn size() -> BoxedStrategy<(u16, u16)> {
    prop_oneof![
        6 => (10u16..100, 3u16..30),
        4 => (1u16..12, 1u16..8),
        1 => (0u16..3, 0u16..3),
        1 => (100u16..300, 30u16..100),
    ]
    .boxed()
}

fn key() -> BoxedStrategy<Key> {
    let c = prop_oneof![6 => prop::char::range('a', 'z'), 2 => prop::char::range(' ', '~'), 1 => prop::sample::select(vec!['é', 'É', '漢', '🦊', 'ß', 'Я'])];
    prop_oneof![
        5 => c.clone().prop_map(Key::Char),
        3 => (0u8..32).prop_map(Key::Ctrl),
        1 => prop::sample::select(vec![6u8, 16, 22, 4, 5]).prop_map(Key::Ctrl),
        2 => c.prop_map(Key::Alt),
        2 => Just(Key::Esc),
        3 => Just(Key::Up),
        5 => Just(Key::Down),
        3 => Just(Key::Enter),
        2 => Just(Key::Backspace),
        1 => any::<u8>().prop_map(Key::Other),
    ]
    .boxed()
}

fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        6 => (prop::collection::vec(server_line(), 1..4), 0u8..3).prop_map(|(l, k)| Step::Server(l, k)),
        2 => menu().prop_map(|m| Step::Server(vec![SrvLine::Menu(m)], 0)),
        2 => (0u8..5).prop_map(Step::Answer),
        2 => (1u8..3, 0u8..5).prop_map(|(n, e)| Step::AnswerSome(n, e)),
        8 => key().prop_map(Step::Key),
        2 => prop::collection::vec(prop::sample::select(vec!['a', 'b', 'G', ' ', 'é', '-']), 2..6).prop_map(Step::Burst),
        3 => size().prop_map(|(w, h)| Step::Resize(w, h)),
    ]
    .boxed()
}

pub struct C23;

impl Prop for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "the terminal client runs in a pseudo terminal read by an emulator, connected to a fake server; generated sizes from 0x0 to 300x100, lines of the server (views, messages, statuses, hints, menus with long, multi-byte, wide and control characters; ill-typed and unreadable lines), keys, bursts, resizes and endings; after every step the screen is compared with a model of it (texts, selections, errors, selected entry), and the requests with those expected, in order; at the end the exit code and the state of the terminal. Non-trivial: a resize, an entry of a menu selected after moving, a burst of characters in a menu.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "with characters which do not take one column the client only has to go on: the screen is compared once they are gone",
        "what is seen when a view, a message, a status or a hint arrives while a menu is open is not told",
        "keys and resizes do not happen in the same instant (the terminal library may lose one of them)",
    ];
    type Case = Case;
    fn cases(tier: Tier) -> u64 {
        tier.pick(16_000, 400_000)
    }
    const SHRINK_STEPS: u32 = 60;
    const STALL_DETECT: bool = false;
    const REPLAY_TRIES: u32 = 4;
    fn strategy(_tier: Tier) -> BoxedStrategy<Case> {
        let name = prop_oneof![4 => "[a-c]{1,3}", 1 => "[é \"'\\\\-]{1,4}"];
        (
            size(),
            prop_oneof![80 => prop::collection::vec(name.clone(), 0..3), 1 => prop::collection::vec(name, 3..200)],
            prop::bool::weighted(0.05),
            prop::collection::vec(step(), 0..14),
            prop_oneof![6 => Just(End::Quit), 1 => Just(End::Close), 1 => Just(End::CloseTyping), 1 => Just(End::CloseResizing)],
        )
            .prop_map(|(size, files, no_log, steps, end)| Case { size, files, no_log, steps, end })
            .boxed()
    }
    fn check(case: &Case, cov: &mut Cov) -> Res {
        run(case, cov)
    }
}
