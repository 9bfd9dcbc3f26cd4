//! The editor as a state machine: several clients, requests, scripts, keys and
//! changes of the files, against a reference model.  C04 to C10, C16, C19 and
//! C20 run it with different mixes of operations, and each enforces what its
//! statement says; a divergence that belongs to another property ends the case.

use crate::engine::*;
use crate::gen;
use crate::maps::check_search;
use crate::proto::{garbage, jid, json_value, strings, JId};
use crate::text::{moved, Doc, Move, Sel, MOVES};
use async_channel::Receiver;
use ced::editor::Editor;
use ced::server::BroadcastMessage;
use ced_remote::protocol::KeyEvent;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::path::PathBuf;

// ----------------------------------------------------------------------- cases

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Who {
    Me,
    Other(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Stmt {
    Move(Who, Move, bool),
    Delete(Who),
    /// deletes and tells what was deleted
    DeleteReport,
    /// tells the context of the client
    Report,
    Message(Who, String),
    Error(Who, String),
    Debug(String),
    /// name, content (none: not given)
    Scratch(Who, u8, Option<String>),
    Edit(Who, Target, Option<bool>),
    Append(BufSel, String),
    Hint(Who, Vec<String>, bool),
    Status(u8, i32, String),
    Env,
    Caught(Fault),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    Syntax,
    Runtime,
    ErrorTable,
    ErrorNil,
    ErrorBytes,
    NilCall,
    WrongType,
    MissingArg,
    NotUtf8Arg,
    UnknownClient(u8),
    NegativeClient,
    Overflow,
    BadEdit,
    NilIndex,
    ForeignSelf,
    RequireMissing,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub enum Target {
    File(u8),
    Scratch(u8),
    Buffer(u16),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum BufSel {
    Existing(u16),
    Named(u8),
    Junk(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum ViewSel {
    Key(u16),
    Buffer(u16),
    Junk(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Choice {
    Entry(u16),
    Text(String),
    Script(Vec<Stmt>, Option<Fault>),
}

/// `Disk::Bulk` with at least that many lines is a file of very long lines instead
const HUGE_FILE: u16 = 65_400;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Disk {
    Write(u8, String),
    /// replaces the part between two positions
    Change(u8, u16, u16, String),
    /// many lines, changed in many places
    Bulk(u8, u16, u16),
    /// rewritten by another program: line ends, byte order mark, end of the file...
    Style(u8, u8),
    /// many small files
    Many(u8),
    /// files in directories within directories
    Deep(u8),
    /// a file whose name is anything
    Named(String),
    /// files whose names are no text
    NotText(u8),
    Remove(u8),
    Directory(u8),
    NotUtf8(u8, Vec<u8>),
    Link(u8, u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Raw {
    Garbage(String),
    UnknownMethod(String, #[serde(with = "crate::gen::optional")] Option<Value>),
    Missing(u8, bool),
    IllTyped(u8, u8),
    /// a request in the name of a client that is not connected
    Stranger(u8),
    UnknownCommand(String, bool),
    /// a valid request, written another way
    Respelt(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    Join,
    /// the connection is lost
    Leave(u8),
    Quit(u8),
    Edit(u8, Target, bool),
    View(u8, ViewSel),
    ViewDelete(u8),
    ViewAdd(u8, BufSel),
    ViewRemove(u8, BufSel),
    Keys(u8, Vec<String>),
    Exec(u8, Vec<Stmt>, Option<Fault>),
    BreakKeys(u8),
    Menu(u8, u8, String),
    Select(u8, u8, Choice),
    Disk(Disk),
    /// changes the file of an open buffer, then opens it again
    Reload(u8, u16, Disk),
    /// a script opening a scratch buffer
    Text(u8, u8, String),
    Raw(u8, Raw),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Step {
    pub op: Op,
    pub id: JId,
    /// asks for the views again afterwards
    pub probe: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    pub session: String,
    pub files: Vec<(u8, String)>,
    pub clients: u8,
    /// identity of the first client, the next ones following it
    #[serde(default = "one")]
    pub first: usize,
    pub steps: Vec<Step>,
}

fn one() -> usize {
    1
}

const FILES: [&str; 9] = ["f0", "f1.txt", "d/f2", "d/e/f3 é", "f0b", "d/f0", "f5'\"\\", "ABS", ""];
const SCRATCHES: [&str; 10] = [
    "s1", "s2", "*scratch*", "*debug*", "*messages*", "*errors*", "f0", "été 🦊", "a'b\"c\\n", "",
];
const COMMANDS: [&str; 7] = ["", "open", "scratch", "view_select", "view_add", "view_remove", "exec"];
const FIXED: [(&str, &str); 8] = [
    ("open", "Open file"),
    ("quit", "Quit"),
    ("scratch", "New scratch"),
    ("view_select", "Change view"),
    ("view_delete", "Delete view"),
    ("view_add", "Add to view"),
    ("view_remove", "Remove from the view."),
    ("exec", "Execute script."),
];
const METHODS: [&str; 10] = [
    "edit", "view", "view-add", "view-remove", "menu", "menu-select", "keys", "exec", "quit", "view-delete",
];

fn ill_typed(m: &str) -> Vec<Value> {
    let mut v = vec![json!(12), json!(true), json!([1]), json!(1.5), json!([null])];
    match m {
        "edit" => v.extend([
            json!("f0"),
            json!({}),
            json!({"name": "f0"}),
            json!({"scratch": true}),
            json!({"name": 1, "scratch": true}),
            json!({"name": "f0", "scratch": "yes"}),
            json!({"name": null, "scratch": false}),
            json!([]),
        ]),
        "menu" => v.extend([
            json!("open"),
            json!({}),
            json!({"command": ""}),
            json!({"search": ""}),
            json!({"command": 1, "search": ""}),
            json!({"command": "", "search": null}),
        ]),
        "menu-select" => v.extend([
            json!("quit"),
            json!({}),
            json!({"command": ""}),
            json!({"choice": "quit"}),
            json!({"command": "", "choice": 1}),
            json!({"command": [""], "choice": "quit"}),
        ]),
        "keys" => v.extend([
            json!("i"),
            json!({}),
            json!(["i"]),
            json!([{}]),
            json!([{"ctrl": false, "alt": false, "shift": false}]),
            json!([{"ctrl": false, "alt": false, "shift": false, "key": "Nope"}]),
            json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": "ab"}}]),
            json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": ""}}]),
            json!([{"ctrl": 1, "alt": false, "shift": false, "key": "Up"}]),
            json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": "i"}}, 3]),
        ]),
        _ => v.extend([json!({}), json!([]), json!(["a"]), json!({"a": "b"})]),
    }
    v
}

// ----------------------------------------------------------------------- model

#[derive(Clone, Debug)]
enum Pend {
    Exact(String),
    /// anything, ending with a newline
    Any,
    /// text whose blanks were changed
    Squashed(String),
}

#[derive(Clone, Debug, Default)]
struct Buf {
    known: String,
    pending: Vec<Pend>,
    /// path and content when last read
    file: Option<(PathBuf, String)>,
}

impl Buf {
    fn new(text: &str) -> Buf {
        Buf {
            known: if text.is_empty() { "\n".into() } else { text.into() },
            ..Buf::default()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct MSel {
    anchor: usize,
    cursor: usize,
    target: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Normal,
    Insertion,
    Goto(bool),
}

impl Mode {
    fn name(self) -> &'static str {
        match self {
            Mode::Normal => "N",
            Mode::Insertion => "I",
            Mode::Goto(false) => "g",
            Mode::Goto(true) => "G",
        }
    }
}

struct Client {
    view: String,
    sels: BTreeMap<String, Option<Vec<MSel>>>,
    modes: Vec<Mode>,
    keys_ok: bool,
    status: BTreeMap<String, (i64, String)>,
    last_view: Option<Value>,
}

type Lenses = BTreeMap<String, usize>;

fn key_of(l: &Lenses) -> String {
    l.iter()
        .map(|(b, n)| format!("{}{{{}}}", b, vec!["*"; *n].join(",")))
        .collect::<Vec<_>>()
        .join("|")
}

#[derive(Clone, Debug)]
enum MenuExp {
    /// command, search, entries
    Entries(String, String, Vec<(String, String)>),
    Prompt(String),
    Nothing(String),
}

#[derive(Default)]
struct Exp {
    messages: BTreeMap<usize, Vec<String>>,
    errors: BTreeMap<usize, Vec<String>>,
    /// client whose request fails, which may be told so; at least so many times
    told: Option<(usize, usize)>,
    menus: BTreeMap<usize, Vec<MenuExp>>,
    hints: BTreeMap<usize, Vec<Vec<String>>>,
    pushed: BTreeSet<usize>,
    joined: Option<usize>,
    touched: BTreeSet<String>,
    /// clients whose own view or selection the operation may have changed
    own: BTreeSet<usize>,
}

pub enum Stop {
    Fail(Fail),
    /// something went wrong that is not this property's
    Cut,
    /// the model does not know what comes next
    End,
}

type R<T = ()> = Result<T, Stop>;

#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Done,
    Refused(&'static [i64]),
}

const BAD_REQUEST: Answer = Answer::Refused(&[-32600]);
const BAD_PARAMS: Answer = Answer::Refused(&[-32602]);

fn squash(s: &str) -> String {
    let s = s.replace("\\n", "");
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub struct Machine<'a> {
    enforced: &'a [&'a str],
    editor: Editor,
    rx: Receiver<BroadcastMessage>,
    session: String,
    cwd: PathBuf,
    buffers: BTreeMap<String, Buf>,
    views: Vec<(String, Lenses)>,
    clients: BTreeMap<usize, Client>,
    /// clients that quit or left
    gone: Vec<usize>,
    joins: Vec<usize>,
    next_id: usize,
    most: usize,
    menus: BTreeMap<String, Vec<(String, String)>>,
    prompts: BTreeSet<String>,
    exp: Exp,
    cov: BTreeMap<String, u64>,
    op: &'static str,
    /// something else than what this property is about went wrong: the case ends after this step
    diverged: bool,
}

const DEBUG: &str = "*debug*";
const SCRATCH: &str = "*scratch*";
const MESSAGES: &str = "*messages*";
const ERRORS: &str = "*errors*";
const STRANGER: usize = 7_777;

fn lua_str(s: &[u8]) -> String {
    let mut out = String::from("\"");
    for b in s {
        if b.is_ascii_alphanumeric() || *b == b' ' {
            out.push(*b as char);
        } else {
            out.push_str(&format!("\\{:03}", b));
        }
    }
    out.push('"');
    out
}

fn q(s: &str) -> String {
    lua_str(s.as_bytes())
}

const PUT: &str = "local out = {} local function put(v) v = tostring(v) out[#out+1] = #v .. ':' .. v end ";

fn context_lua(id: usize) -> String {
    format!(
        "{}local c = editor:get_context({}) put(c.view.key) local names = {{}} \
         for k in pairs(c.selections) do names[#names+1] = k end table.sort(names) put(#names) \
         for _, k in ipairs(names) do put(k) put(#c.selections[k]) for _, s in ipairs(c.selections[k]) do \
         put(s.anchor.offset) put(s.anchor.pos.l) put(s.anchor.pos.c) \
         put(s.cursor.offset) put(s.cursor.pos.l) put(s.cursor.pos.c) put(s.text) end end ",
        PUT, id
    )
}

fn put(out: &mut String, s: &str) {
    out.push_str(&format!("{}:{}", s.len(), s));
}

fn fields(s: &str) -> Option<Vec<String>> {
    let mut v = Vec::new();
    let mut rest = s;
    while !rest.is_empty() {
        let i = rest.find(':')?;
        let n: usize = rest[..i].parse().ok()?;
        v.push(rest.get(i + 1..i + 1 + n)?.to_string());
        rest = &rest[i + 1 + n..];
    }
    Some(v)
}

#[derive(Debug)]
struct CtxSel {
    anchor: (usize, usize, usize),
    cursor: (usize, usize, usize),
    text: String,
}

fn parse_context(s: &str) -> Option<(String, BTreeMap<String, Vec<CtxSel>>)> {
    let f = fields(s)?;
    let mut it = f.into_iter();
    let key = it.next()?;
    let n: usize = it.next()?.parse().ok()?;
    let mut m = BTreeMap::new();
    for _ in 0..n {
        let name = it.next()?;
        let k: usize = it.next()?.parse().ok()?;
        let mut v = Vec::new();
        for _ in 0..k {
            let mut num = || it.next()?.parse::<usize>().ok();
            let anchor = (num()?, num()?, num()?);
            let cursor = (num()?, num()?, num()?);
            v.push(CtxSel {
                anchor,
                cursor,
                text: it.next()?,
            });
        }
        m.insert(name, v);
    }
    if it.next().is_some() {
        return None;
    }
    Some((key, m))
}

pub fn lines_of(text: &str) -> Vec<&str> {
    text.lines().collect()
}

/// one line as its text and whether each byte is highlighted
pub type RLine = (String, Vec<bool>);

pub struct RItem {
    pub buffer: String,
    pub start: u64,
    pub end: u64,
    pub lenses: Vec<(u64, Vec<RLine>)>,
}

pub fn read_rendering(v: &Value) -> Result<Vec<RItem>, String> {
    let mut out = Vec::new();
    for item in v.as_array().ok_or("not a list")? {
        let mut lenses = Vec::new();
        for l in item["lenses"].as_array().ok_or("no lenses")? {
            let mut lines = Vec::new();
            for line in l["lines"].as_array().ok_or("no lines")? {
                let mut s = String::new();
                let mut h = Vec::new();
                for frag in line.as_array().ok_or("no fragments")? {
                    let t = frag["text"].as_str().ok_or("no text")?;
                    let f = match frag["face"].as_str() {
                        Some("Default") => false,
                        Some("Selection") => true,
                        _ => return Err(format!("face of {}", frag)),
                    };
                    s.push_str(t);
                    h.extend(std::iter::repeat(f).take(t.len()));
                }
                lines.push((s, h));
            }
            lenses.push((l["first_line_num"].as_u64().ok_or("no line number")?, lines));
        }
        out.push(RItem {
            buffer: item["buffer"].as_str().ok_or("no name")?.to_string(),
            start: item["start"].as_u64().ok_or("no start")?,
            end: item["end"].as_u64().ok_or("no end")?,
            lenses,
        });
    }
    Ok(out)
}

/// the rendering of a text with its selections
pub fn render(text: &str, sels: &[(usize, usize)]) -> Vec<RLine> {
    let doc = Doc::new(text);
    let mut out = Vec::new();
    for (i, l) in lines_of(text).into_iter().enumerate() {
        let start = doc.lines[i].start;
        let mut h = vec![false; l.len() + 1];
        for (b, e) in sels {
            let end = doc.after(*e);
            for (k, f) in h.iter_mut().enumerate().take(l.len()) {
                *f |= (*b..end).contains(&(start + k));
            }
            // what is not shown of the line: newline and carriage return before it
            let full = doc.lines[i].text.len() + doc.lines[i].newline as usize;
            *h.last_mut().unwrap() |= (l.len()..full).any(|k| (*b..end).contains(&(start + k)));
        }
        out.push((format!("{} ", l), h));
    }
    out
}

impl<'a> Machine<'a> {
    pub fn new(session: &str, cwd: PathBuf, enforced: &'a [&'a str]) -> Machine<'a> {
        let (tx, rx) = async_channel::unbounded();
        let editor = Editor::new(session, tx);
        let mut m = Machine {
            enforced,
            editor,
            rx,
            session: session.to_string(),
            cwd,
            buffers: BTreeMap::new(),
            views: Vec::new(),
            clients: BTreeMap::new(),
            gone: Vec::new(),
            joins: Vec::new(),
            next_id: 1,
            most: 4,
            menus: BTreeMap::new(),
            prompts: BTreeSet::new(),
            exp: Exp::default(),
            cov: BTreeMap::new(),
            op: "start",
            diverged: false,
        };
        m.buffers.insert(
            DEBUG.into(),
            Buf {
                known: String::new(),
                pending: vec![Pend::Any],
                file: None,
            },
        );
        m.buffers.insert(SCRATCH.into(), Buf::new(""));
        let mut l = Lenses::new();
        l.insert(DEBUG.into(), 1);
        l.insert(SCRATCH.into(), 1);
        m.views.push((key_of(&l), l));
        while m.rx.try_recv().is_ok() {}
        m
    }

    fn hit(&mut self, c: &str) {
        *self.cov.entry(c.to_string()).or_insert(0) += 1;
    }

    fn fail<T>(&self, cat: &str, what: impl Into<String>, msg: String) -> R<T> {
        let what: String = what.into();
        if self.enforced.contains(&cat) {
            Err(Stop::Fail(Fail::new(
                format!("{}: {}", cat, what),
                format!("after {}: {} ({}): {}", self.op, cat, what, msg),
            )))
        } else {
            Err(Stop::Cut)
        }
    }

    /// as `fail`, but goes on when the difference is not this property's, to look at the rest of this step
    fn note(&mut self, cat: &str, what: impl Into<String>, msg: String) -> R {
        let r = self.fail(cat, what, msg);
        self.later(r)
    }

    fn later(&mut self, r: R) -> R {
        match r {
            Err(Stop::Cut) => {
                self.diverged = true;
                Ok(())
            }
            r => r,
        }
    }

    // ------------------------------------------------------------ model: state

    fn append(&mut self, name: &str, p: Pend) {
        self.exp.touched.insert(name.to_string());
        let fresh = !self.buffers.contains_key(name);
        let b = self.buffers.entry(name.to_string()).or_default();
        match p {
            Pend::Exact(t) if fresh && t.is_empty() => b.known.push('\n'),
            Pend::Exact(t) if b.pending.is_empty() => b.known.push_str(&t),
            p => b.pending.push(p),
        }
    }

    fn debug(&mut self) {
        self.append(DEBUG, Pend::Any);
    }

    fn loosen(&mut self, buffer: &str) {
        self.exp.touched.insert(buffer.to_string());
        for c in self.clients.values_mut() {
            if let Some(s) = c.sels.get_mut(buffer) {
                *s = None;
            }
        }
    }

    fn lenses(&self, key: &str) -> Option<&Lenses> {
        self.views.iter().find(|(k, _)| k == key).map(|(_, l)| l)
    }

    fn add_view(&mut self, l: Lenses) -> String {
        let key = key_of(&l);
        self.views.retain(|(k, _)| *k != key);
        self.views.insert(0, (key.clone(), l));
        key
    }

    fn show(&mut self, id: usize, key: &str) {
        self.exp.own.insert(id);
        let l = self.lenses(key).expect("HARNESS: view").clone();
        let c = self.clients.get_mut(&id).unwrap();
        if c.view != key {
            c.view = key.to_string();
            c.sels = l.keys().map(|b| (b.clone(), None)).collect();
        }
    }

    fn delete_view(&mut self, key: &str) {
        let i = self.views.iter().position(|(k, _)| k == key).expect("HARNESS: view");
        let (_, l) = self.views.remove(i);
        let mut orphans = 0;
        for b in l.keys() {
            if !self.views.iter().any(|(_, l)| l.contains_key(b)) {
                self.buffers.remove(b);
                orphans += 1;
                // whatever shows it later shows another buffer
                for c in self.clients.values_mut() {
                    if let Some(s) = c.sels.get_mut(b) {
                        *s = None;
                    }
                }
            }
        }
        if orphans > 0 {
            self.hit("buffer deleted with its last view");
        } else {
            self.hit("view deleted, its buffers kept");
        }
        if self.views.is_empty() {
            self.hit("last view deleted");
            self.buffers.entry(SCRATCH.into()).or_insert_with(|| Buf::new(""));
            let mut l = Lenses::new();
            l.insert(SCRATCH.into(), 1);
            self.add_view(l);
        }
        let latest = self.views[0].0.clone();
        let on: Vec<usize> = self.clients.iter().filter(|(_, c)| c.view == key).map(|(i, _)| *i).collect();
        if on.len() > 1 {
            self.hit("view deleted under several clients");
        }
        for id in on {
            // the same key may be back: its selections are new ones anyway
            self.clients.get_mut(&id).unwrap().view = String::from("\u{0}gone");
            self.show(id, &latest);
        }
        self.debug();
    }

    fn modify_view(&mut self, id: usize, new: Lenses) {
        let old = self.clients[&id].view.clone();
        if key_of(&new) == old {
            return;
        }
        if !new.is_empty() {
            let key = self.add_view(new);
            if self.clients.values().any(|c| c.view == key) {
                self.hit("view changed into one shown by another client");
            }
        }
        self.delete_view(&old);
    }

    fn read(&self, path: &PathBuf) -> Option<String> {
        let mut s = String::from_utf8(std::fs::read(path).ok()?).ok()?;
        if !s.ends_with('\n') {
            s.push('\n');
        }
        Some(s)
    }

    fn edit(&mut self, id: usize, name: &str, scratch: bool) -> bool {
        if scratch {
            if !self.buffers.contains_key(name) {
                self.buffers.insert(name.into(), Buf::new(""));
                self.hit("scratch opened");
            }
        } else if let Some(b) = self.buffers.get(name) {
            if let Some((path, last)) = b.file.clone() {
                match self.read(&path) {
                    None => {
                        self.hit("unreadable file reopened");
                        return false;
                    }
                    Some(s) if s != last => {
                        self.hit("changed file reopened");
                        let b = self.buffers.get_mut(name).unwrap();
                        b.known = s.clone();
                        b.pending.clear();
                        b.file = Some((path, s));
                        self.loosen(name);
                        self.debug();
                    }
                    Some(_) => self.hit("unchanged file reopened"),
                }
            }
            // a scratch buffer is only shown (whether columns are still remembered is left open)
            for c in self.clients.values_mut() {
                if let Some(Some(l)) = c.sels.get_mut(name) {
                    for x in l.iter_mut() {
                        x.target = None;
                    }
                }
            }
            self.exp.touched.insert(name.to_string());
        } else {
            let path = self.cwd.join(name);
            match self.read(&path) {
                None => {
                    self.hit("unreadable file opened");
                    return false;
                }
                Some(s) => {
                    self.hit("file opened");
                    if s.lines().count() > 1 {
                        self.hit("file of several lines opened");
                    }
                    self.buffers.insert(
                        name.into(),
                        Buf {
                            known: s.clone(),
                            pending: Vec::new(),
                            file: Some((path, s)),
                        },
                    );
                }
            }
        }
        let mut l = Lenses::new();
        l.insert(name.into(), 1);
        let key = self.add_view(l);
        self.show(id, &key);
        self.debug();
        true
    }

    fn view(&mut self, id: usize, target: &str) -> bool {
        if self.lenses(target).is_some() {
            self.hit("view selected");
            self.show(id, target);
            true
        } else if self.buffers.contains_key(target) {
            let mut l = Lenses::new();
            l.insert(target.into(), 1);
            let key = key_of(&l);
            if self.lenses(&key).is_none() {
                self.hit("view created for a buffer");
                self.add_view(l);
            }
            self.show(id, &key);
            true
        } else {
            self.hit("unknown view");
            false
        }
    }

    fn scratch(&mut self, id: usize, name: &str, content: &str) {
        if self.buffers.contains_key(name) {
            self.hit("scratch rewritten");
            if self.clients.iter().any(|(i, c)| *i != id && c.sels.contains_key(name)) {
                self.hit("scratch rewritten under another client");
            }
        }
        self.buffers.insert(name.into(), Buf::new(content));
        self.loosen(name);
        assert!(self.edit(id, name, true), "HARNESS: scratch");
    }

    fn move_cursor(&mut self, id: usize, m: Move, extend: bool) {
        self.exp.own.insert(id);
        let names: Vec<String> = self.clients[&id].sels.keys().cloned().collect();
        if names.len() > 1 {
            self.hit("move in several buffers");
        }
        for n in names {
            let buf = &self.buffers[&n];
            let (text, clear) = (buf.known.clone(), buf.pending.is_empty());
            let s = self.clients.get_mut(&id).unwrap().sels.get_mut(&n).unwrap();
            let list = match s {
                None => continue,
                Some(l) => l,
            };
            if !clear {
                *s = None;
                continue;
            }
            if text.len() == 1 {
                continue;
            }
            let doc = Doc::new(&text);
            let mut loose = false;
            let mut multibyte = false;
            for x in list.iter_mut() {
                if x.target.is_none() && matches!(m, Move::Up | Move::Down) {
                    loose = true;
                    continue;
                }
                let r = moved(
                    &doc,
                    Sel {
                        anchor: x.anchor,
                        cursor: x.cursor,
                        target: x.target.unwrap_or(usize::MAX),
                    },
                    m,
                    extend,
                );
                multibyte |= doc.at(r.cursor).map_or(false, |p| p.len > 1);
                *x = MSel {
                    anchor: r.anchor,
                    cursor: r.cursor,
                    target: if r.target == usize::MAX { None } else { Some(r.target) },
                };
            }
            if loose {
                *s = None;
            } else {
                self.hit(match m {
                    Move::Up | Move::Down => "vertical move",
                    Move::Left | Move::Right => "horizontal move",
                    _ => "long move",
                });
                if extend {
                    self.hit("extending move");
                }
                if multibyte {
                    self.hit("move to a multi-byte character");
                }
            }
        }
    }

    /// can the effect of a deletion be told?
    fn can_delete(&self, id: usize) -> bool {
        self.clients[&id]
            .sels
            .iter()
            .all(|(b, s)| s.is_some() && self.buffers[b].pending.is_empty())
    }

    fn delete(&mut self, id: usize) -> Vec<String> {
        let mut out = Vec::new();
        let sels = self.clients[&id].sels.clone();
        if sels.len() > 1 {
            self.hit("deletion in several buffers");
        }
        for (name, list) in sels {
            let list = list.unwrap();
            let b = self.buffers.get_mut(&name).unwrap();
            // one selection at a time, as offsets change
            assert!(list.len() <= 1, "HARNESS: several selections");
            let mut what = Vec::new();
            for s in list {
                let doc = Doc::new(&b.known);
                let range = s.anchor.min(s.cursor)..doc.after(s.anchor.max(s.cursor));
                let t: String = b.known[range.clone()].to_string();
                if t.contains('\n') {
                    what.push("newline deleted");
                }
                if !t.is_ascii() {
                    what.push("multi-byte text deleted");
                }
                out.push(t);
                b.known.replace_range(range, "");
            }
            if b.known.is_empty() {
                b.known.push('\n');
                what.push("buffer emptied");
            }
            for w in what {
                self.hit(w);
            }
            if self.clients.iter().any(|(i, c)| *i != id && c.sels.contains_key(&name)) {
                self.hit("deletion under another client");
            }
            self.loosen(&name);
        }
        self.exp.own.insert(id);
        out.sort();
        out
    }

    fn message(&mut self, id: usize, text: &str) {
        self.append(MESSAGES, Pend::Exact(format!("{}|{}\n", id, text)));
        self.exp.messages.entry(id).or_default().push(text.to_string());
    }

    fn error(&mut self, id: usize, text: &str) {
        self.append(ERRORS, Pend::Exact(format!("{}|lua: {}\n", id, text)));
        self.exp.errors.entry(id).or_default().push(format!("lua: {}", text));
    }

    fn populate(&mut self, cmd: &str) {
        let entries: Vec<(String, String)> = match cmd {
            "" => FIXED.iter().map(|(v, l)| (v.to_string(), l.to_string())).collect(),
            "open" => {
                fn walk(dir: &PathBuf, base: &PathBuf, out: &mut Vec<String>) {
                    for e in std::fs::read_dir(dir).expect("HARNESS: list").flatten() {
                        let p = e.path();
                        if std::fs::symlink_metadata(&p).expect("HARNESS: stat").is_dir() {
                            walk(&p, base, out);
                        } else {
                            // what is no text cannot be shown
                            out.extend(p.strip_prefix(base).unwrap().to_str().map(String::from));
                        }
                    }
                }
                let mut v = Vec::new();
                walk(&self.cwd, &self.cwd, &mut v);
                v.into_iter().map(|s| (s.clone(), s)).collect()
            }
            "view_select" => {
                let mut v: Vec<String> = self.views.iter().map(|(k, _)| k.clone()).collect();
                for b in self.buffers.keys() {
                    let k = format!("{}{{*}}", b);
                    if self.lenses(&k).is_none() {
                        v.push(b.clone());
                    }
                }
                v.into_iter().map(|s| (s.clone(), s)).collect()
            }
            "view_add" | "view_remove" => self.buffers.keys().map(|s| (s.clone(), s.clone())).collect(),
            "scratch" | "exec" => {
                self.prompts.insert(cmd.to_string());
                return;
            }
            _ => panic!("HARNESS: command"),
        };
        self.menus.insert(cmd.to_string(), entries);
    }

    fn offer(&mut self, id: usize, cmd: &str, search: &str) {
        let m = if cmd == "scratch" || cmd == "exec" {
            if self.prompts.contains(cmd) {
                MenuExp::Prompt(cmd.to_string())
            } else {
                MenuExp::Nothing(cmd.to_string())
            }
        } else {
            MenuExp::Entries(cmd.into(), search.into(), self.menus.get(cmd).cloned().unwrap_or_default())
        };
        self.exp.menus.entry(id).or_default().push(m);
    }

    fn quit(&mut self, id: usize) {
        self.clients.remove(&id);
        self.joins.retain(|i| *i != id);
        self.gone.push(id);
        self.debug();
    }

    fn status_of(&self, id: usize) -> Vec<(i64, String)> {
        let mut v: Vec<(i64, String)> = self.clients[&id].status.values().cloned().collect();
        v.sort();
        v
    }

    // ------------------------------------------------------------ model: keys

    /// applies the keys to the model; returns those to send and whether they work
    fn keys(&mut self, id: usize, keys: &[String]) -> (Vec<KeyEvent>, bool) {
        let mut sent = Vec::new();
        for k in keys {
            let ev = KeyEvent::from(k.as_str());
            if !self.clients[&id].keys_ok {
                sent.push(ev);
                self.hit("keys of a broken handler");
                return (sent, false);
            }
            let d = ev.to_string();
            let mode = *self.clients[&id].modes.last().unwrap();
            if mode == Mode::Normal && d == "d" && !self.can_delete(id) {
                break;
            }
            let mut handled = true;
            match mode {
                Mode::Normal => match d.as_str() {
                    "i" => self.enter(id, Mode::Insertion),
                    "g" => self.enter(id, Mode::Goto(false)),
                    "s-g" => self.enter(id, Mode::Goto(true)),
                    "h" => self.move_cursor(id, Move::Left, false),
                    "j" => self.move_cursor(id, Move::Down, false),
                    "k" => self.move_cursor(id, Move::Up, false),
                    "l" => self.move_cursor(id, Move::Right, false),
                    "s-h" => self.move_cursor(id, Move::Left, true),
                    "s-j" => self.move_cursor(id, Move::Down, true),
                    "s-k" => self.move_cursor(id, Move::Up, true),
                    "s-l" => self.move_cursor(id, Move::Right, true),
                    "m" => self.message(id, "hello!"),
                    "e" => self.error(id, "oops!"),
                    "d" => {
                        self.delete(id);
                    }
                    _ => handled = false,
                },
                Mode::Insertion => {
                    if d == "esc" {
                        self.clients.get_mut(&id).unwrap().modes.pop();
                    } else {
                        handled = false;
                    }
                }
                Mode::Goto(extend) => {
                    self.clients.get_mut(&id).unwrap().modes.pop();
                    match d.as_str() {
                        "h" => self.move_cursor(id, Move::LineBegin, extend),
                        "l" => self.move_cursor(id, Move::LineEnd, extend),
                        _ => {}
                    }
                }
            }
            if handled {
                let c = self.clients.get_mut(&id).unwrap();
                let m = c.modes.last().unwrap().name().to_string();
                c.status.insert("keys".into(), (80, d));
                c.status.insert("mode".into(), (90, m));
                self.exp.pushed.insert(id);
                self.hit("key handled");
                if mode != Mode::Normal {
                    self.hit("key handled in another mode");
                }
            } else {
                self.hit("key without mapping");
            }
            sent.push(ev);
        }
        (sent, true)
    }

    fn enter(&mut self, id: usize, m: Mode) {
        self.clients.get_mut(&id).unwrap().modes.push(m);
        if let Mode::Goto(x) = m {
            let title = if x { "extend to" } else { "move to" };
            self.exp.hints.entry(id).or_default().push(vec![
                title.into(),
                "h: line begin".into(),
                "l: line end".into(),
            ]);
        }
    }

    // ------------------------------------------------------------ model: scripts

    fn who(&self, me: usize, w: Who) -> usize {
        match w {
            Who::Me => me,
            Who::Other(n) => self.pick_client(n).unwrap_or(me),
        }
    }

    fn pick_client(&self, n: u8) -> Option<usize> {
        if self.clients.is_empty() {
            return None;
        }
        self.clients.keys().nth(n as usize % self.clients.len()).copied()
    }

    fn file_name(&self, n: u8) -> String {
        match FILES[n as usize % FILES.len()] {
            "ABS" => self.cwd.join("f0").to_str().unwrap().to_string(),
            s => s.to_string(),
        }
    }

    fn target(&self, t: Target) -> String {
        match t {
            Target::File(n) => self.file_name(n),
            Target::Scratch(n) => SCRATCHES[n as usize % SCRATCHES.len()].to_string(),
            Target::Buffer(n) => {
                let k = n as usize % self.buffers.len().max(1);
                self.buffers.keys().nth(k).cloned().unwrap_or_default()
            }
        }
    }

    fn buf_sel(&self, b: &BufSel) -> String {
        match b {
            BufSel::Existing(n) => self.target(Target::Buffer(*n)),
            BufSel::Named(n) => SCRATCHES[*n as usize % SCRATCHES.len()].to_string(),
            BufSel::Junk(s) => s.clone(),
        }
    }

    fn expected_context(&self, id: usize) -> Option<String> {
        let c = &self.clients[&id];
        let mut out = String::new();
        put(&mut out, &c.view);
        put(&mut out, &c.sels.len().to_string());
        for (b, list) in &c.sels {
            let buf = &self.buffers[b];
            if !buf.pending.is_empty() {
                return None;
            }
            let list = list.as_ref()?;
            put(&mut out, b);
            put(&mut out, &list.len().to_string());
            let doc = Doc::new(&buf.known);
            for s in list {
                for o in [s.anchor, s.cursor] {
                    let p = doc.at(o)?;
                    for n in [p.offset, p.line, p.col] {
                        put(&mut out, &n.to_string());
                    }
                }
                let (b, e) = (s.anchor.min(s.cursor), s.anchor.max(s.cursor));
                put(&mut out, &buf.known[b..doc.after(e)]);
            }
        }
        Some(out)
    }

    fn fault_lua(&self, f: Fault, me: usize) -> String {
        let bad = self.cwd.join("no such file");
        match f {
            Fault::Syntax => "local x = = 1".into(),
            Fault::Runtime => "error('broken')".into(),
            Fault::ErrorTable => "error({})".into(),
            Fault::ErrorNil => "error(nil)".into(),
            Fault::ErrorBytes => "error('\\255\\254 bytes')".into(),
            Fault::NilCall => "nothing_of_that_name()".into(),
            Fault::WrongType => format!("editor:move_left({{}}, false) editor:message({}, {{}})", me),
            Fault::MissingArg => "editor.core:message()".into(),
            Fault::NotUtf8Arg => format!("editor:message({}, '\\255\\254')", me),
            Fault::UnknownClient(k) => {
                let id = STRANGER;
                match k % 8 {
                    0 => format!("editor:move_left({}, false)", id),
                    1 => format!("editor:delete_selection({})", id),
                    2 => format!("editor:get_context({})", id),
                    3 => format!("editor:scratch({}, 's1', 'x')", id),
                    4 => format!("editor:edit({}, 'f0', false)", id),
                    5 => format!("editor:push_status_line({})", id),
                    6 => format!("editor:move_to_end({}, true)", id),
                    _ => format!("editor:edit({}, 's1', true)", id),
                }
            }
            Fault::NegativeClient => "editor:move_left(-1, false)".into(),
            Fault::Overflow => "local function f() return 1 + f() end f()".into(),
            Fault::BadEdit => format!("editor:edit({}, {}, false)", me, q(bad.to_str().unwrap())),
            Fault::NilIndex => "local x = nil x.y.z = 1".into(),
            Fault::ForeignSelf => format!("editor.core.move_left({{}}, {}, false)", me),
            Fault::RequireMissing => "require('no.such.module')".into(),
        }
    }

    /// applies the statements to the model; returns the source and whether it succeeds
    fn script(&mut self, me: usize, stmts: &[Stmt], fault: Option<Fault>) -> (String, bool) {
        if fault == Some(Fault::Syntax) {
            // nothing runs
            return (format!("editor:message({}, 'no') {}", me, self.fault_lua(Fault::Syntax, me)), false);
        }
        let mut src = String::new();
        for st in stmts {
            if !self.clients.contains_key(&me) {
                break;
            }
            match st {
                Stmt::Move(w, m, x) => {
                    let id = self.who(me, *w);
                    self.move_cursor(id, *m, *x);
                    src += &format!("editor:{}({}, {})\n", m.lua(), id, x);
                }
                Stmt::Delete(w) => {
                    let id = self.who(me, *w);
                    if self.can_delete(id) {
                        self.delete(id);
                        src += &format!("editor:delete_selection({})\n", id);
                    }
                }
                Stmt::DeleteReport => {
                    if self.can_delete(me) {
                        let got = self.delete(me);
                        let mut text = String::new();
                        put(&mut text, &got.len().to_string());
                        for t in &got {
                            put(&mut text, t);
                        }
                        self.message(me, &text);
                        self.hit("deleted text reported");
                        src += &format!(
                            "do {}local d = editor:delete_selection({}) table.sort(d) put(#d) \
                             for _, t in ipairs(d) do put(t) end editor:message({}, table.concat(out)) end\n",
                            PUT, me, me
                        );
                    }
                }
                Stmt::Report => {
                    if let Some(text) = self.expected_context(me) {
                        self.message(me, &text);
                        self.hit("context reported");
                        src += &format!(
                            "do {} editor:message({}, table.concat(out)) end\n",
                            context_lua(me),
                            me
                        );
                    }
                }
                Stmt::Message(w, t) => {
                    let id = self.who(me, *w);
                    self.message(id, t);
                    src += &format!("editor:message({}, {})\n", id, q(t));
                }
                Stmt::Error(w, t) => {
                    let id = self.who(me, *w);
                    self.error(id, t);
                    src += &format!("editor:error({}, {})\n", id, q(t));
                }
                Stmt::Debug(t) => {
                    self.debug();
                    src += &format!("editor:debug({})\n", q(t));
                }
                Stmt::Scratch(w, n, t) => {
                    let id = self.who(me, *w);
                    let name = SCRATCHES[*n as usize % SCRATCHES.len()];
                    self.scratch(id, name, t.as_deref().unwrap_or(""));
                    src += &match t {
                        Some(t) => format!("editor:scratch({}, {}, {})\n", id, q(name), q(t)),
                        None => format!("editor:scratch({}, {})\n", id, q(name)),
                    };
                }
                Stmt::Edit(w, t, scratch) => {
                    let id = self.who(me, *w);
                    let name = self.target(*t);
                    src += &match scratch {
                        Some(s) => format!("editor:edit({}, {}, {})\n", id, q(&name), s),
                        None => format!("editor:edit({}, {})\n", id, q(&name)),
                    };
                    if !self.edit(id, &name, scratch.unwrap_or(false)) {
                        self.hit("script stopped by an unreadable file");
                        return (src, false);
                    }
                }
                Stmt::Append(b, t) => {
                    let name = self.buf_sel(b);
                    let t = &if name == DEBUG { format!("{}\n", t) } else { t.clone() };
                    let shown = self.clients.values().filter(|c| c.sels.contains_key(&name)).count();
                    if shown > 1 {
                        self.hit("text appended under several clients");
                    }
                    self.append(&name, Pend::Exact(t.clone()));
                    src += &format!("editor:append_to({}, {})\n", q(&name), q(t));
                }
                Stmt::Hint(w, lines, framed) => {
                    let id = self.who(me, *w);
                    self.exp.hints.entry(id).or_default().push(lines.clone());
                    let l: Vec<String> = lines.iter().map(|s| q(s)).collect();
                    src += &format!("editor:show_hint({}, {{{}}}, {})\n", id, l.join(", "), framed);
                }
                Stmt::Status(k, i, t) => {
                    let name = format!("item{}", k % 3);
                    self.clients
                        .get_mut(&me)
                        .unwrap()
                        .status
                        .insert(name.clone(), (*i as i64, t.clone()));
                    self.exp.pushed.insert(me);
                    src += &format!(
                        "editor.clients[{}].status_line.{} = {{ index = {}, text = {} }} editor:push_status_line({})\n",
                        me,
                        name,
                        i,
                        q(t),
                        me
                    );
                }
                Stmt::Env => {
                    self.hit("identity checked");
                    src += &format!(
                        "if env.client ~= '{}' or env.session ~= {} then error('env: ' .. env.client .. ' ' .. env.session) end\n",
                        me,
                        q(&self.session)
                    );
                }
                Stmt::Caught(f) => {
                    self.hit("error caught");
                    let f = match f {
                        Fault::Syntax => Fault::NilIndex,
                        f => *f,
                    };
                    src += &format!("pcall(function() {} end)\n", self.fault_lua(f, me));
                }
            }
        }
        match fault {
            None => (src, true),
            Some(f) => {
                src += &self.fault_lua(f, me);
                (src, false)
            }
        }
    }

    // ------------------------------------------------------------ real side

    fn drain(&mut self) -> R<()> {
        let mut seen: BTreeMap<usize, BTreeMap<&'static str, Vec<Value>>> = BTreeMap::new();
        let mut errors: Vec<(usize, String)> = Vec::new();
        while let Ok(bm) = self.rx.try_recv() {
            let p = bm
                .message
                .params::<Value>()
                .ok()
                .flatten()
                .unwrap_or(Value::Null);
            let method = match bm.message.method.as_str() {
                "echo" => "echo",
                "hint" => "hint",
                "info" => "info",
                "menu" => "menu",
                "status" => "status",
                "view" => "view",
                other => return self.fail("echo", "unknown notification", other.to_string()),
            };
            let line = bm.message.to_string();
            if line.contains('\n') {
                return self.fail("resp", "notification on several lines", line);
            }
            for id in self.clients.keys() {
                if bm.should_notify(*id) {
                    seen.entry(*id).or_default().entry(method).or_default().push(p.clone());
                }
            }
        }
        let exp = std::mem::take(&mut self.exp);
        let ids: Vec<usize> = self.clients.keys().cloned().collect();
        for id in ids {
            let got = seen.remove(&id).unwrap_or_default();
            // messages and errors
            let mut messages = Vec::new();
            let mut errs = Vec::new();
            for p in got.get("echo").into_iter().flatten() {
                let mut text = String::new();
                let mut face = None;
                for f in p.as_array().into_iter().flatten() {
                    text += f["text"].as_str().unwrap_or("");
                    face = f["face"].as_str().map(String::from);
                }
                match face.as_deref() {
                    Some("Error") => errs.push(text),
                    _ => messages.push(text),
                }
            }
            let want = exp.messages.get(&id).cloned().unwrap_or_default();
            if messages != want {
                let cat = if messages.len() == want.len() { "reports" } else { "echo" };
                self.note(
                    cat,
                    "messages",
                    format!("messages to client {}: got {:?}, expected {:?}", id, messages, want),
                )?;
            }
            let want = exp.errors.get(&id).cloned().unwrap_or_default();
            let sq: Vec<String> = errs.iter().map(|s| squash(s)).collect();
            let wq: Vec<String> = want.iter().map(|s| squash(s)).collect();
            let told = exp.told.filter(|(i, _)| *i == id).map(|(_, n)| n);
            let ok = match told {
                None => sq == wq,
                Some(n) => sq.len() >= wq.len() + n && sq[..wq.len()] == wq[..],
            };
            if !ok {
                self.note(
                    "echo",
                    "errors",
                    format!("errors to client {}: got {:?}, expected {:?} and {:?} more", id, errs, want, told),
                )?;
            }
            for e in errs.iter().skip(want.len()) {
                errors.push((id, e.clone()));
            }
            // menus
            let menus = got.get("menu").cloned().unwrap_or_default();
            let want = exp.menus.get(&id).cloned().unwrap_or_default();
            if menus.len() != want.len() {
                self.note(
                    "menu-to",
                    "number of menus",
                    format!("menus to client {}: got {:?}, expected {:?}", id, menus, want),
                )?;
            }
            for (m, w) in menus.iter().zip(&want) {
                let r = self.check_menu(id, m, w);
                self.later(r)?;
            }
            // hints
            let hints = got.get("hint").cloned().unwrap_or_default();
            let want = exp.hints.get(&id).cloned().unwrap_or_default();
            if hints.len() != want.len() {
                self.note(
                    "hint",
                    "number of hints",
                    format!("hints to client {}: got {:?}, expected {:?}", id, hints, want),
                )?;
            }
            for (h, w) in hints.iter().zip(&want) {
                let text: Vec<String> = h["text"]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .map(|l| {
                        l.as_array()
                            .into_iter()
                            .flatten()
                            .map(|f| f["text"].as_str().unwrap_or("").to_string())
                            .collect::<String>()
                    })
                    .collect();
                if !w.iter().all(|l| text.iter().any(|t| t.contains(l.as_str()))) {
                    self.note(
                        "hint",
                        "text of the hint",
                        format!("hint to client {}: got {:?}, expected {:?}", id, text, w),
                    )?;
                }
            }
            // identity
            let infos = got.get("info").cloned().unwrap_or_default();
            if exp.joined == Some(id) {
                let want = json!({"client": id.to_string(), "session": self.session, "cwd": self.cwd.to_str().unwrap()});
                if infos != vec![want.clone()] {
                    self.note("info", "greeting", format!("greeting of client {}: got {:?}, expected {}", id, infos, want))?;
                }
            } else if !infos.is_empty() {
                self.note("info", "greeting", format!("client {} greeted again: {:?}", id, infos))?;
            }
            // status line
            let st = got.get("status").cloned().unwrap_or_default();
            if exp.pushed.contains(&id) != !st.is_empty() {
                self.note(
                    "status",
                    "status line sent",
                    format!("status lines to client {}: got {:?}, expected {}", id, st, exp.pushed.contains(&id)),
                )?;
            }
            if let Some(last) = st.last() {
                let mut got: Vec<(i64, String)> = Vec::new();
                for i in last.as_array().into_iter().flatten() {
                    let t: String = i["text"]
                        .as_array()
                        .into_iter()
                        .flatten()
                        .map(|f| f["text"].as_str().unwrap_or("").to_string())
                        .collect();
                    got.push((i["index"].as_i64().unwrap_or(i64::MIN), t));
                }
                if got.windows(2).any(|w| w[0].0 > w[1].0) {
                    self.note("status", "order of the status line", format!("client {}: {:?}", id, got))?;
                }
                got.sort();
                let want = self.status_of(id);
                if got != want {
                    self.note(
                        "status",
                        "status line",
                        format!("status line of client {}: got {:?}, expected {:?}", id, got, want),
                    )?;
                }
            }
            // views
            let views = got.get("view").cloned().unwrap_or_default();
            if let Some(v) = views.last() {
                let c = &self.clients[&id];
                let allowed = exp.own.contains(&id)
                    || exp.joined == Some(id)
                    || c.last_view.as_ref() != Some(v)
                    || c.sels.keys().any(|b| exp.touched.contains(b));
                if !allowed {
                    self.note(
                        "spurious",
                        "view of another client sent again",
                        format!("client {} was sent its view, which nothing changed", id),
                    )?;
                }
                self.clients.get_mut(&id).unwrap().last_view = Some(v.clone());
            }
        }
        for (id, e) in errors {
            self.append(ERRORS, Pend::Squashed(format!("{}|{}", id, e)));
        }
        self.exp = Exp::default();
        Ok(())
    }

    fn check_menu(&mut self, id: usize, m: &Value, w: &MenuExp) -> R {
        let cmd = match w {
            MenuExp::Entries(c, _, _) | MenuExp::Prompt(c) | MenuExp::Nothing(c) => c.clone(),
        };
        if m["command"] != json!(cmd) {
            return self.fail("menu", "command of the menu", format!("menu {} for {:?}", m, w));
        }
        let entries = m["entries"].as_array().cloned().unwrap_or_default();
        let mut got: Vec<(String, String, Vec<(String, bool)>)> = Vec::new();
        for e in &entries {
            let tokens: Vec<(String, bool)> = e["text"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|f| (f["text"].as_str().unwrap_or("").to_string(), f["face"] == json!("Match")))
                .collect();
            let label: String = tokens.iter().map(|(t, _)| t.as_str()).collect();
            got.push((e["value"].as_str().unwrap_or("\u{0}").to_string(), label, tokens));
        }
        match w {
            MenuExp::Nothing(_) => {
                if !got.is_empty() {
                    return self.fail("menu", "menu", format!("client {}: {}", id, m));
                }
            }
            MenuExp::Prompt(_) => {
                if got.len() != 1 {
                    return self.fail("menu", "prompt", format!("client {}: {}", id, m));
                }
            }
            MenuExp::Entries(_, search, want) => {
                if m["search"] != json!(search) {
                    return self.fail("menu", "search of the menu", format!("{} for {:?}", m, search));
                }
                let labels: Vec<String> = want.iter().map(|(_, l)| l.clone()).collect();
                let mut cov = Cov::default();
                let list: Vec<(String, Vec<(String, bool)>)> =
                    got.iter().map(|(_, l, t)| (l.clone(), t.clone())).collect();
                if let Err(f) = check_search(search, &labels, &list, &mut cov) {
                    return self.fail("menu", f.sig, format!("menu {:?} of client {}: {}", cmd, id, f.msg));
                }
                for (v, l, _) in &got {
                    if !want.iter().any(|(wv, wl)| wv == v && wl == l) {
                        return self.fail("menu", "value of an entry", format!("entry {:?} with value {:?}", l, v));
                    }
                }
                if cov.nontrivial {
                    self.hit("menu filtered");
                }
                if got.len() > 1 {
                    self.hit("menu of several entries");
                }
            }
        }
        Ok(())
    }

    /// learns the content of the logs from what was shown
    fn learn(&mut self) -> R {
        let shown: Vec<(usize, Value)> = self
            .clients
            .iter()
            .filter_map(|(i, c)| Some((*i, c.last_view.clone()?)))
            .collect();
        for (id, v) in shown {
            let items = match read_rendering(&v) {
                Ok(i) => i,
                Err(e) => return self.fail("content", "shape of a view", format!("{}: {}", e, v)),
            };
            let want: Vec<String> = self.lenses(&self.clients[&id].view).expect("HARNESS: shown view").keys().cloned().collect();
            let names: Vec<String> = items.iter().map(|i| i.buffer.clone()).collect();
            if names != want {
                return self.fail(
                    "items",
                    "buffers shown",
                    format!("client {} sees {:?}, expected {:?}", id, names, want),
                );
            }
            for item in items {
                let b = &self.buffers[&item.buffer];
                let noisy = item.buffer == DEBUG;
                if b.pending.is_empty() && !noisy {
                    continue;
                }
                let lines: Vec<String> = match item.lenses.first() {
                    None => continue,
                    Some((_, l)) => l
                        .iter()
                        .map(|(s, _)| s.strip_suffix(' ').unwrap_or(s).to_string())
                        .collect(),
                };
                if lines == lines_of(&b.known) && (noisy || b.pending.is_empty()) {
                    if noisy {
                        self.buffers.get_mut(&item.buffer).unwrap().pending.clear();
                    }
                    continue;
                }
                // a rendering does not tell whether the last line is ended
                let ended = match b.pending.iter().rev().find(|p| !matches!(p, Pend::Exact(t) if t.is_empty())) {
                    Some(Pend::Exact(t)) => t.ends_with('\n'),
                    Some(_) => true,
                    None => noisy || b.known.ends_with('\n'),
                };
                let text = lines.join("\n") + if ended { "\n" } else { "" };
                let tail = match text.strip_prefix(b.known.as_str()) {
                    Some(t) => t,
                    None => {
                        return self.fail(
                            "log",
                            "what a log held",
                            format!("buffer {:?}: shown {:?}, held {:?}", item.buffer, text, b.known),
                        )
                    }
                };
                let any = noisy || b.pending.iter().any(|p| matches!(p, Pend::Any));
                let mut rest = squash(tail);
                let mut ok = true;
                for p in &b.pending {
                    let t = match p {
                        Pend::Any => continue,
                        Pend::Exact(t) | Pend::Squashed(t) => squash(t),
                    };
                    match rest.find(&t) {
                        Some(i) if i == 0 || any => rest = rest[i + t.len()..].to_string(),
                        _ => ok = false,
                    }
                }
                if !any && !rest.is_empty() {
                    ok = false;
                }
                if !ok {
                    return self.fail(
                        "log",
                        "what was added to a log",
                        format!("buffer {:?} got {:?}, expected {:?}", item.buffer, tail, b.pending),
                    );
                }
                let b = self.buffers.get_mut(&item.buffer).unwrap();
                b.known = text;
                b.pending.clear();
            }
        }
        Ok(())
    }

    fn context(&mut self, id: usize) -> R {
        let src = format!("{}return table.concat(out)", context_lua(id));
        let got = self.editor.exec_lua("context", id, |lua| lua.load(&src).eval::<String>());
        let s = match got {
            Ok(s) => s,
            Err(e) => return self.fail("valid", "context", format!("context of client {}: {}", id, e)),
        };
        let (key, sels) = match parse_context(&s) {
            Some(x) => x,
            None => return self.fail("ctxdata", "shape of the context", s),
        };
        if key != self.clients[&id].view {
            return self.fail(
                "view",
                "current view",
                format!("client {} is on {:?}, expected {:?}", id, key, self.clients[&id].view),
            );
        }
        let names: Vec<&String> = self.clients[&id].sels.keys().collect();
        if !names.iter().all(|n| sels.contains_key(*n)) || sels.len() != names.len() {
            return self.fail(
                "valid",
                "buffers with selections",
                format!("client {}: {:?}, expected {:?}", id, sels.keys(), names),
            );
        }
        for (b, list) in sels {
            let buf = &self.buffers[&b];
            if !buf.pending.is_empty() {
                // only logs that this client was not shown yet
                self.clients.get_mut(&id).unwrap().sels.insert(b, None);
                continue;
            }
            let doc = Doc::new(&buf.known);
            let known = self.clients[&id].sels[&b].clone();
            if list.is_empty() {
                return self.fail("valid", "no selection", format!("client {}, buffer {:?}", id, b));
            }
            if list.len() > 1 {
                return Err(Stop::End);
            }
            let mut adopted = Vec::new();
            for s in &list {
                for (o, l, c) in [s.anchor, s.cursor] {
                    if !doc.is_position(o) {
                        return self.fail(
                            "valid",
                            "selection outside the characters",
                            format!("client {}, buffer {:?}, offset {} in {:?}", id, b, o, buf.known),
                        );
                    }
                    let p = doc.at(o).unwrap();
                    if (p.line, p.col) != (l, c) {
                        return self.fail(
                            "ctxdata",
                            "position of a selection",
                            format!("client {}, buffer {:?}: offset {} said at {}:{}, is at {}:{} of {:?}", id, b, o, l, c, p.line, p.col, buf.known),
                        );
                    }
                }
                let (x, y) = (s.anchor.0.min(s.cursor.0), s.anchor.0.max(s.cursor.0));
                let want = &buf.known[x..doc.after(y)];
                if s.text != want {
                    return self.fail(
                        "ctxdata",
                        "text of a selection",
                        format!("client {}, buffer {:?}: got {:?}, expected {:?}", id, b, s.text, want),
                    );
                }
                adopted.push(MSel {
                    anchor: s.anchor.0,
                    cursor: s.cursor.0,
                    target: None,
                });
            }
            match known {
                None => {
                    self.clients.get_mut(&id).unwrap().sels.insert(b, Some(adopted));
                }
                Some(k) => {
                    let got: Vec<(usize, usize)> = adopted.iter().map(|s| (s.anchor, s.cursor)).collect();
                    let want: Vec<(usize, usize)> = k.iter().map(|s| (s.anchor, s.cursor)).collect();
                    if got != want {
                        return self.fail(
                            "sel",
                            "selection",
                            format!("client {}, buffer {:?} {:?}: (anchor, cursor) {:?}, expected {:?}", id, b, buf.known, got, want),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    fn rendering(&mut self, id: usize) -> R {
        let v = match &self.clients[&id].last_view {
            None => {
                return self.fail("stale", "no view", format!("client {} was never sent a view", id));
            }
            Some(v) => v.clone(),
        };
        let items = read_rendering(&v).unwrap_or_default();
        let lenses = self.lenses(&self.clients[&id].view).unwrap().clone();
        for item in &items {
            let b = &self.buffers[&item.buffer];
            if !b.pending.is_empty() {
                continue;
            }
            let sels: Vec<(usize, usize)> = self.clients[&id].sels[&item.buffer]
                .iter()
                .flatten()
                .map(|s| (s.anchor.min(s.cursor), s.anchor.max(s.cursor)))
                .collect();
            let want = render(&b.known, &sels);
            if item.start != 1 || item.end != want.len() as u64 {
                if item.lenses.iter().all(|(_, l)| l.len() == want.len()) {
                    return self.fail(
                        "number",
                        "range of lines",
                        format!("buffer {:?}: {} to {}, has {} lines", item.buffer, item.start, item.end, want.len()),
                    );
                }
            }
            if item.lenses.len() != lenses[&item.buffer] {
                return self.fail("number", "number of parts", format!("buffer {:?}: {}", item.buffer, v));
            }
            for (first, lines) in &item.lenses {
                if *first != 1 {
                    return self.fail("number", "first line number", format!("buffer {:?}: {}", item.buffer, first));
                }
                let gt: Vec<&String> = lines.iter().map(|(t, _)| t).collect();
                let wt: Vec<&String> = want.iter().map(|(t, _)| t).collect();
                if gt != wt {
                    return self.fail(
                        "content",
                        "text of a buffer",
                        format!("client {}, buffer {:?}: shown {:?}, expected {:?}", id, item.buffer, gt, wt),
                    );
                }
                for ((t, g), (_, w)) in lines.iter().zip(&want) {
                    if g != w && !self.diverged {
                        return self.fail(
                            "highlight",
                            "highlighted characters",
                            format!("client {}, buffer {:?}, line {:?}: highlighted {:?}, expected {:?}", id, item.buffer, t, g, w),
                        );
                    }
                    if g.iter().any(|x| *x) && !t.is_ascii() {
                        self.hit("highlight on a multi-byte line");
                    }
                }
            }
        }
        Ok(())
    }

    /// asks each client's view again: what it has must be up to date
    fn probe(&mut self) -> R {
        let ids: Vec<usize> = self.clients.keys().cloned().collect();
        for id in ids {
            let key = self.clients[&id].view.clone();
            let line = json!({"jsonrpc": "2.0", "id": 0, "method": "view", "params": key}).to_string();
            let r = self.editor.handle(id, &line);
            let ok = matches!(&r, Ok(r) if matches!(r.result::<Value>(), Ok(Ok(_))));
            if !ok {
                return self.fail("code:view", "current view refused", format!("view {:?} of client {}: {:?}", key, id, r));
            }
            let mut now = None;
            while let Ok(bm) = self.rx.try_recv() {
                if bm.message.method == "view" && bm.should_notify(id) {
                    now = bm.message.params::<Value>().ok().flatten();
                }
            }
            let c = self.clients.get_mut(&id).unwrap();
            if now.is_none() || now != c.last_view {
                let msg = format!("client {} had {:?}, its view is {:?}", id, c.last_view, now);
                return self.fail("stale", "stale view", msg);
            }
        }
        Ok(())
    }

    /// at the end, reads each buffer as a whole: unlike the lines of a view, it has all its characters
    fn whole(&mut self) -> R {
        self.op = "whole";
        let id = match self.clients.keys().next() {
            Some(id) => *id,
            None => {
                self.editor.add_client(self.next_id);
                self.next_id
            }
        };
        for (name, buf) in &self.buffers {
            if name == DEBUG || !buf.pending.is_empty() {
                continue;
            }
            let own = format!("{}{{*}}", name);
            if self.lenses(&own).is_none() && (self.lenses(name).is_some() || name.ends_with("{*}")) {
                // its name is also the key of a view
                continue;
            }
            let key = if self.lenses(&own).is_some() { own } else { name.clone() };
            let line = json!({"jsonrpc": "2.0", "id": 0, "method": "view", "params": key}).to_string();
            let r = self.editor.handle(id, &line);
            if !matches!(&r, Ok(r) if matches!(r.result::<Value>(), Ok(Ok(_)))) {
                return self.fail("content", "buffer not shown", format!("view of {:?}: {:?}", key, r));
            }
            let src = format!(
                "editor:move_to_begin({0}, false) editor:move_to_end({0}, true) return editor:get_context({0}).selections[{1}][1].text",
                id,
                q(name)
            );
            match self.editor.exec_lua("whole", id, |lua| lua.load(&src).eval::<String>()) {
                Ok(t) if t == buf.known => {}
                r => {
                    let msg = format!("buffer {:?} as a whole: {:?}, expected {:?}", name, r, buf.known);
                    return self.fail("content", "whole text of a buffer", msg);
                }
            }
        }
        self.hit("buffers read as a whole");
        Ok(())
    }

    /// sends a line and checks the form of the answer
    fn send(&mut self, id: usize, line: &str, want_id: &Value, want: Answer) -> R {
        let cat = format!("code:{}", self.op);
        let r = match self.editor.handle(id, line) {
            Ok(r) => r.to_string(),
            Err(e) => return self.fail("resp", "no answer", format!("{} for {:?}", e, line)),
        };
        if r.contains('\n') {
            return self.fail("resp", "answer on several lines", r);
        }
        let v: Value = match serde_json::from_str(&r) {
            Ok(v) => v,
            Err(e) => return self.fail("resp", "answer is not JSON", format!("{}: {}", e, r)),
        };
        let has = |k: &str| v.as_object().map_or(false, |o| o.contains_key(k));
        if v["jsonrpc"] != json!("2.0") || !has("id") || has("result") == has("error") {
            return self.fail("resp", "answer is not a response", format!("{} for {}", r, line));
        }
        if v["id"] != *want_id {
            return self.fail("resp", "id of the answer", format!("{} for {}", r, line));
        }
        match want {
            Answer::Done => {
                if has("error") {
                    return self.fail(&cat, "refused", format!("{} for {}", r, line));
                }
            }
            Answer::Refused(codes) => {
                if has("result") {
                    return self.fail(&cat, "accepted", format!("{} for {}", r, line));
                }
                let code = v["error"]["code"].as_i64();
                if !v["error"]["message"].is_string() {
                    return self.fail("resp", "error without message", r);
                }
                if !codes.iter().any(|c| Some(*c) == code) {
                    return self.fail(&cat, "error code", format!("{} for {}, expected {:?}", r, line, codes));
                }
            }
        }
        Ok(())
    }

    fn request(&mut self, id: usize, rid: &JId, method: &str, params: Value, want: Answer) -> R {
        let line = json!({"jsonrpc": "2.0", "id": rid.json(), "method": method, "params": params}).to_string();
        self.send(id, &line, &rid.json(), want)
    }

    fn settle(&mut self, probe: bool) -> R {
        // what a server does after each event
        for id in self.editor.removed_clients() {
            if !self.gone.contains(&id) {
                return self.fail("echo", "client removed", format!("client {} was dropped", id));
            }
        }
        self.drain()?;
        let learnt = match self.learn() {
            Err(Stop::Cut) => {
                self.diverged = true;
                false
            }
            r => r.map(|_| true)?,
        };
        let ids: Vec<usize> = self.clients.keys().cloned().collect();
        for id in &ids {
            let r = self.context(*id);
            self.later(r)?;
        }
        for id in ids {
            if learnt {
                let r = self.rendering(id);
                self.later(r)?;
            }
        }
        if probe {
            let r = self.probe();
            self.later(r)?;
        }
        if self.diverged {
            return Err(Stop::Cut);
        }
        Ok(())
    }

    fn join(&mut self) -> R {
        let id = self.next_id;
        self.next_id += 1;
        self.editor.add_client(id);
        // the view of a newcomer is not specified: adopt it
        let src = format!("return editor:get_context({}).view.key", id);
        let key = match self.editor.exec_lua("context", id, |lua| lua.load(&src).eval::<String>()) {
            Ok(k) => k,
            Err(e) => return self.fail("valid", "context", format!("context of client {}: {}", id, e)),
        };
        let l = match self.lenses(&key) {
            Some(l) => l.clone(),
            None => return self.fail("view", "view of a newcomer", format!("client {} is on {:?}", id, key)),
        };
        let mut status = BTreeMap::new();
        status.insert("client".to_string(), (100, format!("[{}@{}]", id, self.session)));
        self.clients.insert(
            id,
            Client {
                view: key,
                sels: l.keys().map(|b| (b.clone(), None)).collect(),
                modes: vec![Mode::Normal],
                keys_ok: true,
                status,
                last_view: None,
            },
        );
        self.joins.push(id);
        self.exp.joined = Some(id);
        self.exp.own.insert(id);
        self.exp.pushed.insert(id);
        self.debug();
        if self.clients.len() > 1 {
            self.hit("several clients");
        }
        Ok(())
    }

    // ------------------------------------------------------------ disk

    fn slot(&self, n: u8) -> PathBuf {
        let name = FILES[n as usize % 7];
        self.cwd.join(name)
    }

    fn clear(p: &PathBuf) {
        if let Ok(m) = std::fs::symlink_metadata(p) {
            if m.is_dir() {
                std::fs::remove_dir(p).expect("HARNESS: remove directory");
            } else {
                std::fs::remove_file(p).expect("HARNESS: remove file");
            }
        }
    }

    fn write(p: &PathBuf, s: &[u8]) {
        Self::clear(p);
        std::fs::write(p, s).expect("HARNESS: write");
    }

    fn disk(&mut self, d: &Disk, at: Option<PathBuf>) {
        let place = |m: &Self, n: u8| at.clone().unwrap_or_else(|| m.slot(n));
        match d {
            Disk::Write(n, s) => Self::write(&place(self, *n), s.as_bytes()),
            Disk::Change(n, a, b, t) => {
                let p = place(self, *n);
                let mut s = std::fs::read_to_string(&p).unwrap_or_default();
                let (x, y) = (gen::boundary(&s, *a), gen::boundary(&s, *b));
                // mostly short parts
                let (x, y) = (x.min(y), x.max(y).min(x.min(y) + 6 + (*b as usize & 31)));
                let y = (y..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap();
                s.replace_range(x..y, t);
                Self::write(&p, s.as_bytes());
            }
            Disk::Bulk(n, lines, seed) => {
                let words = ["let x = 1;", "", "  return", "}", "é🦊", "漢字 a", "foo(bar)"];
                let mut r = u64::from(*seed) * 2 + 1;
                let mut s = String::new();
                let times = if *seed % 6 == 0 { 5 } else { 1 };
                if *lines >= HUGE_FILE {
                    // long lines, sizes around powers of two
                    let size = [65_535, 65_536, 65_537, 70_000, 131_073, 262_147][*seed as usize % 6];
                    let unit = format!("{}{} ", words[(*seed / 6) as usize % 7], seed);
                    while s.len() < size {
                        s += &unit.repeat(100 + *seed as usize % 200);
                        s.push('\n');
                    }
                    let cut = (0..=size).rev().find(|i| s.is_char_boundary(*i)).unwrap();
                    s.truncate(cut);
                }
                for i in 0..(*lines as usize % 400) * times {
                    r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let k = (r >> 33) as usize;
                    if k % 11 == 0 {
                        s += &format!("{} {}\n", i, seed);
                    } else {
                        s += words[(i * 7 + (k % 23) / 20) % words.len()];
                        s.push('\n');
                    }
                }
                Self::write(&place(self, *n), s.as_bytes());
            }
            Disk::Style(n, k) => {
                let p = place(self, *n);
                if let Ok(s) = std::fs::read_to_string(&p) {
                    let s = match k {
                        0 | 1 => s.replace("\r\n", "\n").replace('\n', "\r\n"),
                        2 => s.replace("\r\n", "\n"),
                        3 => format!("\u{feff}{}", s),
                        4 => s.trim_start_matches('\u{feff}').to_owned(),
                        5 => s + "\0",
                        6 => s + "\r",
                        7 => s + "\n",
                        8 => s.trim_end_matches('\n').to_owned(),
                        9 => s.replace('\n', " \n"),
                        10 => s.replace('\t', "    "),
                        11 => format!("\n{}", s),
                        12 => s.replace('é', "e\u{301}"),
                        13 => s.replace("e\u{301}", "é"),
                        14 => s + "\u{2028}",
                        15 => s.to_lowercase(),
                        16 => s.chars().rev().collect(),
                        17 => s.clone() + &s,
                        18 => s.replace('\n', "\r"),
                        _ => s.trim_end().to_owned(),
                    };
                    self.hit("file rewritten in another style");
                    Self::write(&p, s.as_bytes());
                }
            }
            Disk::Many(n) => {
                let dir = self.cwd.join("many");
                std::fs::create_dir_all(&dir).expect("HARNESS: directory");
                for i in 0..*n {
                    Self::write(&dir.join(format!("f{}", i)), b"x\n");
                }
            }
            Disk::Deep(n) => {
                let mut dir = self.cwd.join("deep");
                for i in 0..*n {
                    std::fs::create_dir_all(&dir).expect("HARNESS: directory");
                    if i % 3 == 0 || i + 1 == *n {
                        Self::write(&dir.join(format!("g{}", i)), b"x\n");
                    }
                    dir.push(["a", "b c", "é"][i as usize % 3]);
                }
                self.hit("deep directories");
            }
            Disk::Named(name) => {
                let dir = self.cwd.join("named");
                std::fs::create_dir_all(&dir).expect("HARNESS: directory");
                Self::write(&dir.join(name), b"named\n");
                self.hit("file with any name");
            }
            Disk::NotText(n) => {
                use std::os::unix::ffi::OsStrExt;
                let dir = self.cwd.join("other");
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).expect("HARNESS: directory");
                for i in 0..*n {
                    Self::write(&dir.join(format!("h{}", i)), b"x\n");
                    let name = [b'h', 0xff - i, i % 26 + b'a'];
                    Self::write(&dir.join(std::ffi::OsStr::from_bytes(&name)), b"x\n");
                }
                self.hit("files whose names are no text");
            }
            Disk::Remove(n) => Self::clear(&place(self, *n)),
            Disk::Directory(n) => {
                let p = place(self, *n);
                Self::clear(&p);
                std::fs::create_dir(&p).expect("HARNESS: directory");
            }
            Disk::NotUtf8(n, b) => {
                let mut v = b.clone();
                if std::str::from_utf8(&v).is_ok() {
                    v.push(0xff);
                }
                Self::write(&place(self, *n), &v);
            }
            Disk::Link(n, to) => {
                let (p, t) = (place(self, *n), self.slot(*to));
                Self::clear(&p);
                std::os::unix::fs::symlink(t, p).expect("HARNESS: link");
            }
        }
    }

    // ------------------------------------------------------------ steps

    fn exec_answer(&mut self, id: usize, ok: bool) -> Answer {
        if ok {
            Answer::Done
        } else {
            self.hit("script failed");
            self.debug();
            self.exp.told = Some((id, 1));
            Answer::Refused(&[1])
        }
    }

    fn edit_request(&mut self, id: usize, s: &Step, name: &str, scratch: bool) -> R {
        let before = self.clients[&id].view.clone();
        let ok = self.edit(id, name, scratch);
        let want = if ok {
            Answer::Done
        } else {
            self.exp.told = Some((id, 0));
            BAD_REQUEST
        };
        if !ok && self.clients[&id].view != before {
            panic!("HARNESS: view changed");
        }
        self.request(id, &s.id, "edit", json!({"name": name, "scratch": scratch}), want)
    }

    pub fn step(&mut self, s: &Step) -> R {
        self.op = match &s.op {
            Op::Join => "join",
            Op::Leave(_) => "leave",
            Op::Quit(_) => "quit",
            Op::Edit(..) | Op::Reload(..) => "edit",
            Op::View(..) | Op::ViewDelete(_) | Op::ViewAdd(..) | Op::ViewRemove(..) => "view",
            Op::Keys(..) => "keys",
            Op::Exec(..) | Op::BreakKeys(_) | Op::Text(..) => "exec",
            Op::Menu(..) | Op::Select(..) => "menu",
            Op::Disk(_) => "disk",
            Op::Raw(..) => "raw",
        };
        let who = match &s.op {
            Op::Join | Op::Disk(_) => None,
            Op::Leave(c)
            | Op::Quit(c)
            | Op::Edit(c, ..)
            | Op::View(c, _)
            | Op::ViewDelete(c)
            | Op::ViewAdd(c, _)
            | Op::ViewRemove(c, _)
            | Op::Keys(c, _)
            | Op::Exec(c, ..)
            | Op::BreakKeys(c)
            | Op::Reload(c, ..)
            | Op::Text(c, ..)
            | Op::Menu(c, ..)
            | Op::Select(c, ..)
            | Op::Raw(c, _) => match self.pick_client(*c) {
                None => return Ok(()),
                Some(id) => Some(id),
            },
        };
        let id = who.unwrap_or(0);
        match &s.op {
            Op::Join => {
                if self.clients.len() >= self.most {
                    return Ok(());
                }
                self.join()?;
            }
            Op::Leave(_) => {
                self.quit(id);
                self.editor.remove_client(id);
                self.hit("client left");
            }
            Op::Quit(_) => {
                self.quit(id);
                self.request(id, &s.id, "quit", Value::Null, Answer::Done)?;
                let removed = self.editor.removed_clients();
                if removed != vec![id] {
                    return self.fail("resp", "quit", format!("clients that quit: {:?}, expected {}", removed, id));
                }
                // its connection then closes
                if s.probe {
                    self.editor.remove_client(id);
                }
                self.hit("client quit");
            }
            Op::Edit(_, t, scratch) => {
                let name = self.target(*t);
                self.edit_request(id, s, &name, *scratch)?;
            }
            Op::View(_, v) => {
                let target = match v {
                    ViewSel::Key(n) => self.views[*n as usize % self.views.len()].0.clone(),
                    ViewSel::Buffer(n) => self.target(Target::Buffer(*n)),
                    ViewSel::Junk(s) => s.clone(),
                };
                let ok = self.view(id, &target);
                let want = self.refused_unless(id, ok);
                self.request(id, &s.id, "view", json!(target), want)?;
            }
            Op::ViewDelete(_) => {
                let key = self.clients[&id].view.clone();
                self.delete_view(&key);
                self.request(id, &s.id, "view-delete", Value::Null, Answer::Done)?;
            }
            Op::ViewAdd(_, b) => {
                let name = self.buf_sel(b);
                let ok = self.view_add(id, &name);
                let want = self.refused_unless(id, ok);
                self.request(id, &s.id, "view-add", json!(name), want)?;
            }
            Op::ViewRemove(_, b) => {
                let name = self.buf_sel(b);
                let ok = self.view_remove(id, &name);
                let want = self.refused_unless(id, ok);
                self.request(id, &s.id, "view-remove", json!(name), want)?;
            }
            Op::Keys(_, keys) => {
                let (events, ok) = self.keys(id, keys);
                let want = if ok {
                    Answer::Done
                } else {
                    self.exp.told = Some((id, 1));
                    self.debug();
                    Answer::Refused(&[-32603])
                };
                if events.len() > 1 {
                    self.hit("several keys at once");
                }
                self.request(id, &s.id, "keys", serde_json::to_value(&events).unwrap(), want)?;
            }
            Op::Exec(_, stmts, fault) => {
                let (src, ok) = self.script(id, stmts, *fault);
                let want = self.exec_answer(id, ok);
                self.request(id, &s.id, "exec", json!(src), want)?;
            }
            Op::BreakKeys(_) => {
                self.clients.get_mut(&id).unwrap().keys_ok = false;
                let src = format!("editor.clients[{}].key_handler = nil", id);
                self.request(id, &s.id, "exec", json!(src), Answer::Done)?;
            }
            Op::Menu(_, cmd, search) => {
                let cmd = COMMANDS[*cmd as usize % COMMANDS.len()];
                if search.is_empty() {
                    self.populate(cmd);
                    self.hit("menu opened");
                } else {
                    self.hit("menu searched");
                }
                self.offer(id, cmd, search);
                self.request(id, &s.id, "menu", json!({"command": cmd, "search": search}), Answer::Done)?;
            }
            Op::Select(_, cmd, choice) => self.select(id, &s.id, COMMANDS[*cmd as usize % COMMANDS.len()], choice)?,
            Op::Disk(d) => self.disk(d, None),
            Op::Reload(c, n, d) => {
                let open: Vec<_> = self.buffers.iter().filter_map(|(k, b)| Some((k.clone(), b.file.clone()?.0))).collect();
                let name = match open.get(*n as usize % open.len().max(1)) {
                    Some((name, path)) => {
                        self.disk(d, Some(path.clone()));
                        name.clone()
                    }
                    None => self.file_name(*c % 7),
                };
                self.edit_request(id, s, &name, false)?;
            }
            Op::Text(_, n, t) => {
                let (src, ok) = self.script(id, &[Stmt::Scratch(Who::Me, *n, Some(t.clone()))], None);
                let want = self.exec_answer(id, ok);
                self.request(id, &s.id, "exec", json!(src), want)?;
            }
            Op::Raw(_, r) => self.raw(id, &s.id, r)?,
        }
        self.settle(s.probe)
    }

    fn refused_unless(&mut self, id: usize, ok: bool) -> Answer {
        if ok {
            Answer::Done
        } else {
            self.exp.told = Some((id, 0));
            BAD_REQUEST
        }
    }

    fn view_add(&mut self, id: usize, name: &str) -> bool {
        if !self.buffers.contains_key(name) {
            self.hit("unknown buffer");
            return false;
        }
        let mut l = self.lenses(&self.clients[&id].view).unwrap().clone();
        *l.entry(name.to_string()).or_insert(0) += 1;
        if l[name] > 1 {
            self.hit("buffer shown twice");
        }
        if l.values().sum::<usize>() > 4 {
            self.hit("view of five buffers or more");
        }
        self.hit("buffer added to a view");
        self.modify_view(id, l);
        true
    }

    fn view_remove(&mut self, id: usize, name: &str) -> bool {
        if !self.buffers.contains_key(name) {
            self.hit("unknown buffer");
            return false;
        }
        let mut l = self.lenses(&self.clients[&id].view).unwrap().clone();
        if l.remove(name).is_some() {
            self.hit("buffer removed from a view");
        }
        self.modify_view(id, l);
        true
    }

    fn select(&mut self, id: usize, rid: &JId, cmd: &str, choice: &Choice) -> R {
        let prompt = cmd == "scratch" || cmd == "exec";
        let entries = self.menus.get(cmd).cloned().unwrap_or_default();
        let populated = prompt && self.prompts.contains(cmd);
        let mut script = None;
        let text = match choice {
            Choice::Entry(_) if prompt => format!("s{}", cmd.len()),
            Choice::Entry(n) if entries.is_empty() => format!("nothing {}", n),
            Choice::Entry(n) => entries[*n as usize % entries.len()].0.clone(),
            Choice::Text(t) => t.clone(),
            Choice::Script(st, f) => {
                if cmd == "exec" && populated {
                    let (src, ok) = self.script(id, st, *f);
                    script = Some(ok);
                    src
                } else {
                    "return 1".into()
                }
            }
        };
        let known = if prompt { populated } else { entries.iter().any(|(v, _)| *v == text) };
        let want = if !known {
            self.hit("unknown choice");
            self.exp.told = Some((id, 0));
            BAD_PARAMS
        } else {
            self.hit("entry chosen");
            match cmd {
                "" => {
                    match text.as_str() {
                        "quit" => self.quit(id),
                        "view_delete" => {
                            let key = self.clients[&id].view.clone();
                            self.delete_view(&key);
                        }
                        sub => {
                            self.populate(sub);
                            self.offer(id, sub, "");
                        }
                    }
                    Answer::Done
                }
                "open" => {
                    let ok = self.edit(id, &text, false);
                    self.refused_unless(id, ok)
                }
                "scratch" => {
                    let ok = self.edit(id, &text, true);
                    self.refused_unless(id, ok)
                }
                "view_select" => {
                    let ok = self.view(id, &text);
                    self.refused_unless(id, ok)
                }
                "view_add" => {
                    let ok = self.view_add(id, &text);
                    self.refused_unless(id, ok)
                }
                "view_remove" => {
                    let ok = self.view_remove(id, &text);
                    self.refused_unless(id, ok)
                }
                _ => match script {
                    Some(ok) => {
                        self.hit("script given to the prompt");
                        self.exec_answer(id, ok)
                    }
                    None => {
                        // is this text a script that does nothing?
                        let blank = |c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}');
                        let ok = text.chars().all(blank) || text == "return 1";
                        if !ok {
                            if text.chars().all(|c| c == 's' || c.is_ascii_digit()) {
                                self.exec_answer(id, false)
                            } else {
                                return Err(Stop::End);
                            }
                        } else {
                            Answer::Done
                        }
                    }
                },
            }
        };
        let gone = !self.clients.contains_key(&id);
        self.request(id, rid, "menu-select", json!({"command": cmd, "choice": text}), want)?;
        if gone {
            let removed = self.editor.removed_clients();
            if removed != vec![id] {
                return self.fail("code:menu", "quit", format!("clients that quit: {:?}, expected {}", removed, id));
            }
        }
        Ok(())
    }

    fn raw(&mut self, id: usize, rid: &JId, r: &Raw) -> R {
        match r {
            Raw::Garbage(s) => {
                let line = s.replace(['\n', '\r'], " ");
                self.exp.told = Some((id, 1));
                self.hit("garbage");
                self.send(id, &line, &Value::Null, BAD_REQUEST)
            }
            Raw::UnknownMethod(m, p) => {
                if METHODS.contains(&m.as_str()) {
                    return Ok(());
                }
                self.exp.told = Some((id, 1));
                self.hit("unknown method");
                let mut v = json!({"jsonrpc": "2.0", "id": rid.json(), "method": m});
                if let Some(p) = p {
                    v["params"] = p.clone();
                }
                self.send(id, &v.to_string(), &rid.json(), Answer::Refused(&[-32601]))
            }
            Raw::Missing(m, null) => {
                let m = METHODS[*m as usize % 8];
                self.exp.told = Some((id, 0));
                self.hit("missing parameters");
                let mut v = json!({"jsonrpc": "2.0", "id": rid.json(), "method": m});
                if *null {
                    v["params"] = Value::Null;
                }
                self.send(id, &v.to_string(), &rid.json(), BAD_REQUEST)
            }
            Raw::IllTyped(m, k) => {
                let m = METHODS[*m as usize % 8];
                let all = ill_typed(m);
                let p = all[*k as usize % all.len()].clone();
                self.exp.told = Some((id, 0));
                self.hit("ill-typed parameters");
                self.request(id, rid, m, p, BAD_PARAMS)
            }
            Raw::Stranger(m) => {
                let who = match self.gone.last() {
                    Some(g) if m % 2 == 0 => *g,
                    _ => STRANGER,
                };
                let m = METHODS[*m as usize / 2 % 10];
                let p = match m {
                    "edit" => json!({"name": "s1", "scratch": true}),
                    "menu" => json!({"command": "", "search": ""}),
                    "menu-select" => json!({"command": "", "choice": "quit"}),
                    "keys" => json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": "d"}}]),
                    "exec" => json!("editor:debug('x')"),
                    "quit" | "view-delete" => Value::Null,
                    _ => json!(SCRATCH),
                };
                self.hit("request of a client that is not there");
                self.request(who, rid, m, p, BAD_REQUEST)
            }
            Raw::UnknownCommand(c, select) => {
                if COMMANDS.contains(&c.as_str()) {
                    return Ok(());
                }
                self.exp.told = Some((id, 0));
                self.hit("unknown command");
                if *select {
                    self.request(id, rid, "menu-select", json!({"command": c, "choice": ""}), BAD_PARAMS)
                } else {
                    self.request(id, rid, "menu", json!({"command": c, "search": ""}), BAD_PARAMS)
                }
            }
            Raw::Respelt(k) => {
                let key = self.clients[&id].view.clone();
                self.exp.own.insert(id);
                self.hit("request written another way");
                let i = rid.json();
                let mut esc = String::new();
                for u in key.encode_utf16() {
                    esc += &format!("\\u{:04x}", u);
                }
                let line = match k % 4 {
                    0 => format!(" {{ \"params\" : {} ,\t\"method\":\"view\", \"id\": {} , \"jsonrpc\": \"2.0\" }} ", json!(key), i),
                    1 => format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"v\\u0069ew\",\"params\":\"{}\"}}", i, esc),
                    2 => format!("{{\"jsonrpc\":\"2.0\",\"extra\":[{{}}],\"id\":{},\"method\":\"view\",\"params\":{}}}", i, json!(key)),
                    _ => format!("{{\"method\":\"view\",\"id\":{},\"params\":{},\"jsonrpc\":\"2.0\"}}\t", i, json!(key)),
                };
                self.send(id, &line, &i, Answer::Done)
            }
        }
    }
}

// ------------------------------------------------------------------ generators

#[derive(Clone, Copy)]
pub struct Weights {
    pub join: u32,
    pub leave: u32,
    pub edit: u32,
    pub view: u32,
    pub delete: u32,
    pub add: u32,
    pub remove: u32,
    pub keys: u32,
    pub exec: u32,
    pub faults: u32,
    pub menu: u32,
    pub select: u32,
    pub disk: u32,
    pub raw: u32,
    pub breakkeys: u32,
    pub moves: u32,
    pub deletes: u32,
    pub texts: u32,
    pub reload: u32,
}

pub const BASE: Weights = Weights {
    join: 2,
    leave: 1,
    edit: 6,
    view: 4,
    delete: 2,
    add: 3,
    remove: 2,
    keys: 6,
    exec: 8,
    faults: 2,
    menu: 2,
    select: 2,
    disk: 3,
    raw: 2,
    breakkeys: 0,
    moves: 6,
    deletes: 2,
    texts: 3,
    reload: 1,
};

fn union<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    let v: Vec<_> = v.into_iter().filter(|(w, _)| *w > 0).collect();
    proptest::strategy::Union::new_weighted(v).boxed()
}

fn who() -> BoxedStrategy<Who> {
    prop_oneof![5 => Just(Who::Me), 1 => any::<u8>().prop_map(Who::Other)].boxed()
}

fn target() -> BoxedStrategy<Target> {
    prop_oneof![
        5 => (0u8..9).prop_map(Target::File),
        3 => (0u8..10).prop_map(Target::Scratch),
        2 => any::<u16>().prop_map(Target::Buffer),
    ]
    .boxed()
}

/// a name that can be part of the key of a view without ambiguity
fn junk() -> BoxedStrategy<String> {
    strings().prop_map(|s| s.replace(['{', '}', '|'], "")).boxed()
}

/// what can be the name of a visible file
fn file_named(s: &str) -> String {
    let mut s = s.replace(['/', '\0'], "-");
    let cut = (0..=200).rev().find(|i| s.is_char_boundary(*i)).unwrap();
    s.truncate(cut);
    if s.is_empty() || s.starts_with('.') {
        s.insert(0, 'n');
    }
    s
}

fn buf_sel() -> BoxedStrategy<BufSel> {
    prop_oneof![
        6 => any::<u16>().prop_map(BufSel::Existing),
        2 => (0u8..10).prop_map(BufSel::Named),
        1 => junk().prop_map(BufSel::Junk),
    ]
    .boxed()
}

fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        Just(Fault::Syntax),
        Just(Fault::Runtime),
        Just(Fault::ErrorTable),
        Just(Fault::ErrorNil),
        Just(Fault::ErrorBytes),
        Just(Fault::NilCall),
        Just(Fault::WrongType),
        Just(Fault::MissingArg),
        Just(Fault::NotUtf8Arg),
        (0u8..8).prop_map(Fault::UnknownClient),
        Just(Fault::NegativeClient),
        Just(Fault::Overflow),
        Just(Fault::BadEdit),
        Just(Fault::NilIndex),
        Just(Fault::ForeignSelf),
        Just(Fault::RequireMissing),
    ]
    .boxed()
}

/// text for a log: no carriage return, which lines shown do not tell
fn logged() -> BoxedStrategy<String> {
    prop_oneof![3 => gen::line(6), 1 => gen::text(8)]
        .prop_map(|s| s.replace('\r', "r"))
        .boxed()
}

fn stmt(w: Weights) -> BoxedStrategy<Stmt> {
    let m = || prop::sample::select(MOVES.to_vec());
    union(vec![
        (w.moves * 3, ((who(), m(), any::<bool>()).prop_map(|(w, m, x)| Stmt::Move(w, m, x))).boxed()),
        (w.moves, ((prop::sample::select(vec![Move::Right, Move::Down]), any::<bool>())
            .prop_map(|(m, x)| Stmt::Move(Who::Me, m, x))).boxed()),
        (w.deletes * 2, (who().prop_map(Stmt::Delete)).boxed()),
        (w.deletes, (Just(Stmt::DeleteReport)).boxed()),
        (2, (Just(Stmt::Report)).boxed()),
        (2, ((who(), logged()).prop_map(|(w, t)| Stmt::Message(w, t))).boxed()),
        (2, ((who(), logged()).prop_map(|(w, t)| Stmt::Error(w, t))).boxed()),
        (1, ("[a-z ]{1,8}".prop_map(Stmt::Debug)).boxed()),
        (4, ((who(), 0u8..10, prop::option::weighted(0.9, gen::mixed(12)))
            .prop_map(|(w, n, t)| Stmt::Scratch(w, n, if (3..=5).contains(&n) { t.map(|t| t.replace('\r', "r") + "\n") } else { t }))).boxed()),
        (2, ((who(), target(), prop::option::of(any::<bool>())).prop_map(|(w, t, s)| Stmt::Edit(w, t, s))).boxed()),
        (3, ((buf_sel(), gen::mixed(8)).prop_map(|(b, t)| Stmt::Append(b, t.replace('\r', "r")))).boxed()),
        (1, ((who(), prop::collection::vec("[a-z é]{1,6}", 1..4), any::<bool>())
            .prop_map(|(w, l, f)| Stmt::Hint(w, l, f))).boxed()),
        (1, ((any::<u8>(), prop_oneof![0i32..120, any::<i32>()], gen::line(4))
            .prop_map(|(k, i, t)| Stmt::Status(k, i, t))).boxed()),
        (1, (Just(Stmt::Env)).boxed()),
        (w.faults, (fault().prop_map(Stmt::Caught)).boxed()),
    ])
}

/// lines where most characters take several bytes
fn rich() -> BoxedStrategy<String> {
    let line = prop::collection::vec(prop::sample::select(gen::TOKENS.to_vec()), 0..7).prop_map(|v| v.concat().replace('\r', "é"));
    (prop::collection::vec(line, 1..6), any::<bool>())
        .prop_map(|(v, e)| v.join("\n") + if e { "\n" } else { "" })
        .boxed()
}

fn stmts(w: Weights) -> BoxedStrategy<Vec<Stmt>> {
    prop_oneof![
        3 => prop::collection::vec(stmt(w), 1..3),
        2 => prop::collection::vec(stmt(w), 0..8),
    ]
    .boxed()
}

fn key() -> BoxedStrategy<String> {
    prop_oneof![
        12 => prop::sample::select(vec!["h", "j", "k", "l", "s-h", "s-j", "s-k", "s-l"]),
        3 => prop::sample::select(vec!["g", "s-g"]),
        2 => prop::sample::select(vec!["i", "esc"]),
        2 => Just("d"),
        1 => prop::sample::select(vec!["m", "e"]),
        2 => prop::sample::select(vec![
            "H", "G", "c-h", "a-l", "c-a-s-j", "x", "é", "漢", "🦊", "up", "down", "ret", "bkspc", "s-i", "c-d", "s-d",
            "c-g", "s-esc", "left", "right", "D", "s-m", ".", " ", "0", "c-right", "a-bkspc", "s-right", "c-a-left",
            "a-ret", "c-s-up", "a-esc", "c-é", "c-a-s-down",
        ]),
    ]
    .prop_map(String::from)
    .boxed()
}

fn search() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just(String::new()),
        2 => prop::sample::select(vec!["f", "F0", "d f", "s", "view", "*", "{*", "e", "o n", ".", "é", "f0 x", "[", "scr ch"])
            .prop_map(String::from),
        1 => "[a-z0-9*. ]{1,4}",
    ]
    .boxed()
}

fn disk() -> BoxedStrategy<Disk> {
    prop_oneof![
        6 => (0u8..7, gen::mixed(14)).prop_map(|(n, s)| Disk::Write(n, s)),
        6 => (0u8..7, any::<u16>(), any::<u16>(), gen::mixed(6)).prop_map(|(n, a, b, t)| Disk::Change(n, a, b, t)),
        1 => (0u8..7, prop_oneof![20 => 0..HUGE_FILE, 1 => HUGE_FILE..=u16::MAX], any::<u16>())
            .prop_map(|(n, a, b)| Disk::Bulk(n, a, b)),
        3 => (0u8..7, 0u8..20).prop_map(|(n, k)| Disk::Style(n, k)),
        1 => prop_oneof![3 => 1u8..12, 1 => 20u8..=255].prop_map(Disk::Many),
        1 => prop_oneof![3 => 1u8..12, 1 => 12u8..40].prop_map(Disk::Deep),
        1 => junk().prop_map(|s| Disk::Named(file_named(&s))),
        1 => (1u8..4).prop_map(Disk::NotText),
        1 => (0u8..7).prop_map(Disk::Remove),
        1 => (0u8..7).prop_map(Disk::Directory),
        1 => (0u8..7, prop::collection::vec(any::<u8>(), 0..6)).prop_map(|(n, b)| Disk::NotUtf8(n, b)),
        1 => (0u8..7, 0u8..7).prop_map(|(a, b)| Disk::Link(a, b)),
    ]
    .boxed()
}

fn raw() -> BoxedStrategy<Raw> {
    prop_oneof![
        3 => garbage().prop_map(Raw::Garbage),
        2 => (strings(), prop::option::of(json_value())).prop_map(|(m, p)| Raw::UnknownMethod(m, p)),
        1 => (prop::sample::select(vec!["Edit", "view_add", "views", "exec ", "", "quit2", "menu.select"]).prop_map(String::from),
              prop::option::of(json_value())).prop_map(|(m, p)| Raw::UnknownMethod(m, p)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(m, n)| Raw::Missing(m, n)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(m, k)| Raw::IllTyped(m, k)),
        2 => any::<u8>().prop_map(Raw::Stranger),
        1 => (prop_oneof![strings(), prop::sample::select(vec!["quit", "view_delete", "Open", "open "]).prop_map(String::from)],
              any::<bool>()).prop_map(|(c, s)| Raw::UnknownCommand(c, s)),
        1 => any::<u8>().prop_map(Raw::Respelt),
    ]
    .boxed()
}

fn choice(w: Weights) -> BoxedStrategy<Choice> {
    prop_oneof![
        6 => any::<u16>().prop_map(Choice::Entry),
        2 => prop_oneof![junk(), prop::sample::select(vec!["s1", "f0", "", "Quit", "open", "*scratch*", "*scratch*{*}", " s1", " ", "s1 ", "\ts 2", "two words", "s1\n", "S1"]).prop_map(String::from)]
            .prop_map(Choice::Text),
        1 => (stmts(w), prop::option::weighted(0.3, fault())).prop_map(|(s, f)| Choice::Script(s, f)),
    ]
    .boxed()
}

fn op(w: Weights) -> BoxedStrategy<Op> {
    let c = any::<u8>;
    union(vec![
        (w.join, (Just(Op::Join)).boxed()),
        (w.leave, (c().prop_map(Op::Leave)).boxed()),
        (w.leave, (c().prop_map(Op::Quit)).boxed()),
        (w.edit, ((c(), target(), prop::bool::weighted(0.3)).prop_map(|(c, t, s)| match t {
            // files are opened as files, mostly
            Target::File(_) => Op::Edit(c, t, s && c & 3 == 0),
            Target::Scratch(_) => Op::Edit(c, t, s || c & 3 != 0),
            t => Op::Edit(c, t, s),
        })).boxed()),
        (w.view, ((c(), prop_oneof![
            4 => any::<u16>().prop_map(ViewSel::Key),
            2 => any::<u16>().prop_map(ViewSel::Buffer),
            1 => junk().prop_map(ViewSel::Junk),
        ]).prop_map(|(c, v)| Op::View(c, v))).boxed()),
        (w.delete, (c().prop_map(Op::ViewDelete)).boxed()),
        (w.add, ((c(), buf_sel()).prop_map(|(c, b)| Op::ViewAdd(c, b))).boxed()),
        (w.remove, ((c(), buf_sel()).prop_map(|(c, b)| Op::ViewRemove(c, b))).boxed()),
        (w.keys, ((c(), prop_oneof![
            2 => prop::collection::vec(key(), 1..2),
            3 => gen::few(key(), 0..8, 20..50),
        ]).prop_map(|(c, k)| Op::Keys(c, k))).boxed()),
        (w.exec, ((c(), stmts(w)).prop_map(|(c, s)| Op::Exec(c, s, None))).boxed()),
        (w.faults, ((c(), stmts(w), fault()).prop_map(|(c, s, f)| Op::Exec(c, s, Some(f)))).boxed()),
        (w.breakkeys, (c().prop_map(Op::BreakKeys)).boxed()),
        (w.menu, ((c(), 0u8..7, search()).prop_map(|(c, m, s)| Op::Menu(c, m, s))).boxed()),
        (w.select, ((c(), 0u8..7, choice(w)).prop_map(|(c, m, x)| Op::Select(c, m, x))).boxed()),
        (w.disk, (disk().prop_map(Op::Disk)).boxed()),
        (w.reload, ((c(), any::<u16>(), disk()).prop_map(|(c, n, d)| Op::Reload(c, n, d))).boxed()),
        (w.texts, ((c(), 0u8..3, rich()).prop_map(|(c, n, t)| Op::Text(c, n, t))).boxed()),
        (w.raw, ((c(), raw()).prop_map(|(c, r)| Op::Raw(c, r))).boxed()),
    ])
}

/// many buffers in one view
fn pile() -> BoxedStrategy<Vec<Step>> {
    (any::<u8>(), 3u8..10, 0u8..10, jid(), any::<bool>())
        .prop_map(|(c, n, from, id, probe)| {
            let open = (0..n).map(|k| Op::Edit(c, Target::Scratch((from + k) % 10), true));
            let add = (0..n).map(|k| Op::ViewAdd(c, BufSel::Named((from + k) % 10)));
            open.chain(add)
                .map(|op| Step {
                    op,
                    id: id.clone(),
                    probe,
                })
                .collect()
        })
        .boxed()
}

pub fn case(w: Weights, n: usize, tier: Tier) -> BoxedStrategy<Case> {
    let n = tier.pick(n, n * 2);
    let step = prop_oneof![
        200 => (op(w), jid(), prop::bool::weighted(0.6)).prop_map(|(op, id, probe)| vec![Step { op, id, probe }]),
        w.add => pile(),
    ]
    .boxed();
    let steps = move |n: std::ops::Range<usize>| prop::collection::vec(step.clone(), n);
    (
        prop_oneof![2 => Just("session".to_string()), 1 => Just(String::new()), 2 => strings()],
        prop::collection::vec((0u8..7, gen::mixed(14)), 1..8),
        prop_oneof![180 => Just(1u8), 180 => Just(2), 60 => Just(3), 1 => 5u8..14],
        prop_oneof![6 => Just(1usize), 1 => Just(9), 1 => prop::sample::select(vec![2usize, 8, 10, 98, 99, 255, 300, 1_000])],
        // rarely much longer ones
        prop_oneof![400 => steps(1..n), 1 => steps(n..n * 5)],
    )
        .prop_map(|(session, files, clients, first, steps)| Case {
            session,
            files,
            clients,
            first,
            steps: steps.concat(),
        })
        .boxed()
}

thread_local! {
    static BASE_DIR: PathBuf = std::env::current_dir().expect("HARNESS: cwd");
}

pub fn run(case: &Case, enforced: &[&str], nontrivial: &[&str], cov: &mut Cov) -> Res {
    let base = BASE_DIR.with(|b| b.clone());
    let dir = base.join("c");
    std::env::set_current_dir(&base).expect("HARNESS: chdir");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("d/e")).expect("HARNESS: scratch directory");
    std::env::set_current_dir(&dir).expect("HARNESS: chdir");
    for (n, s) in &case.files {
        let p = dir.join(FILES[*n as usize % 7]);
        std::fs::write(p, s).expect("HARNESS: write");
    }
    let mut m = Machine::new(&case.session, dir, enforced);
    m.next_id = case.first;
    m.most = 4.max(case.clients as usize);
    let mut go = || -> R {
        for _ in 0..case.clients.max(1) {
            m.op = "join";
            m.join()?;
            m.settle(true)?;
        }
        for s in &case.steps {
            match m.step(s) {
                // what was learnt elsewhere is no excuse for a wrong text
                Err(Stop::Cut) => {
                    m.whole()?;
                    return Err(Stop::Cut);
                }
                r => r?,
            }
        }
        m.whole()
    };
    let r = go();
    for (c, n) in &m.cov {
        *cov.classes.entry(c.clone()).or_insert(0) += n;
    }
    if nontrivial.iter().any(|c| m.cov.contains_key(*c)) {
        cov.nontrivial = true;
    }
    match r {
        Ok(()) => Ok(()),
        Err(Stop::Cut) | Err(Stop::End) => {
            cov.hit("case cut short");
            Ok(())
        }
        Err(Stop::Fail(f)) => Err(f),
    }
}

pub trait Profile {
    const ID: &'static str;
    const RULE: &'static str;
    const ENFORCED: &'static [&'static str];
    const NONTRIVIAL: &'static [&'static str];
    const WEIGHTS: Weights;
    const LEN: usize;
    const CASES: (u64, u64);
    fn fixed() -> Vec<Case> {
        Vec::new()
    }
}

pub struct M<P: Profile>(PhantomData<P>);

impl<P: Profile> Prop for M<P> {
    const ID: &'static str = P::ID;
    const RULE: &'static str = P::RULE;
    const ASSUMPTIONS: &'static [&'static str] = &[
        "names of buffers do not contain the characters {, | and }, which make keys of views ambiguous",
        "scripts end, and leave the process, the standard streams and the editor's own tables alone",
        "no FIFO or device among the files opened; no hidden or ignored file in the directory listed",
    ];
    type Case = Case;
    fn cases(tier: Tier) -> u64 {
        tier.pick(P::CASES.0, P::CASES.1)
    }
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        case(P::WEIGHTS, P::LEN, tier)
    }
    fn check(c: &Case, cov: &mut Cov) -> Res {
        run(c, P::ENFORCED, P::NONTRIVIAL, cov)
    }
    fn fixed(_tier: Tier) -> Vec<Case> {
        P::fixed()
    }
}

macro_rules! profile {
    ($t:ident, $id:expr, $rule:expr, $enf:expr, $nt:expr, $w:expr, $len:expr, $cases:expr) => {
        pub struct $t;
        impl Profile for $t {
            const ID: &'static str = $id;
            const RULE: &'static str = $rule;
            const ENFORCED: &'static [&'static str] = $enf;
            const NONTRIVIAL: &'static [&'static str] = $nt;
            const WEIGHTS: Weights = $w;
            const LEN: usize = $len;
            const CASES: (u64, u64) = $cases;
        }
    };
}

profile!(P04, "C04",
    "histories of requests by up to 4 clients on up to 7 files, which are written, changed in part, removed, replaced by directories, links or non-text, then opened and reopened. Oracle: the model reads the same files itself; every client's view is compared with it after each step. Non-trivial: a changed file reopened, or an unreadable file asked for.",
    &["content", "code:edit", "view", "items", "stale"],
    &["changed file reopened", "unreadable file reopened", "unreadable file opened"],
    Weights { reload: 24, edit: 14, disk: 10, exec: 3, keys: 3, menu: 1, select: 1, raw: 0, add: 1, remove: 1, faults: 0, ..BASE }, 24, (24_000, 800_000));
profile!(P05, "C05",
    "histories of moves (keys and scripts, extending or not) in views of one or more generated texts with multi-byte characters, empty lines and missing final newlines. Oracle: the move computed on the list of user-perceived characters of the text. Non-trivial: a vertical move, or a move to a multi-byte character.",
    &["sel", "valid"],
    &["vertical move", "move to a multi-byte character"],
    Weights { texts: 8, moves: 20, keys: 14, exec: 12, edit: 3, add: 2, disk: 1, deletes: 1, raw: 0, menu: 0, select: 0, faults: 0, ..BASE }, 24, (32_000, 800_000));
profile!(P06, "C06",
    "histories of moves, deletions, appends, rewrites and reloads by up to 4 clients on shared buffers. Oracle: deletion computed on the string; the selections of every client checked to be on characters of the text after each step, with their text. Non-trivial: text deleted that is multi-byte or has a newline, a buffer emptied, or a deletion, reload or rewrite under another client.",
    &["content", "valid", "ctxdata", "sel", "reports"],
    &["newline deleted", "multi-byte text deleted", "buffer emptied", "deletion under another client", "scratch rewritten under another client"],
    Weights { texts: 5, reload: 4, moves: 10, deletes: 6, keys: 10, exec: 12, disk: 1, join: 3, raw: 0, menu: 0, select: 0, faults: 0, ..BASE }, 24, (32_000, 800_000));
profile!(P07, "C07",
    "histories of edits and moves; every view sent is compared with the rendering of the model: names in order, line numbers, text of each line, highlighted bytes. Part of the cases render generated parts (line ranges and whole buffers) of generated buffers with generated selections directly. Non-trivial: a highlight on a line with multi-byte characters, a buffer shown twice, or a part that does not start at the first line.",
    &["items", "content", "number", "highlight"],
    &["highlight on a multi-byte line", "buffer shown twice"],
    Weights { texts: 6, moves: 14, keys: 8, exec: 12, add: 4, raw: 0, menu: 0, select: 0, faults: 0, ..BASE }, 20, (24_000, 400_000));
profile!(P08, "C08",
    "histories of opening, adding, removing, selecting and deleting views by up to 4 clients that join and leave. Oracle: a model of views in order of opening, of buffers and of each client's view. Non-trivial: a view deleted (with or without its buffers, under several clients, the last one), or changed into one another client shows.",
    &["view", "items", "code:view", "code:edit", "content"],
    &["buffer deleted with its last view", "view deleted, its buffers kept", "view deleted under several clients", "last view deleted", "view changed into one shown by another client"],
    Weights { edit: 8, view: 8, delete: 8, add: 6, remove: 6, join: 4, leave: 2, keys: 3, exec: 4, raw: 0, menu: 1, select: 2, disk: 1, faults: 1, ..BASE }, 30, (24_000, 800_000));
profile!(P09, "C09",
    "lines of every kind (garbage, unknown methods, missing or ill-typed parameters, strangers, unusual spellings, and valid requests of every method) in states reached by random histories. Oracle: the form, id and code of the answer; the state of the model afterwards. Non-trivial: a line that must be refused.",
    &["resp", "code:edit", "code:view", "code:menu", "code:keys", "code:exec", "code:raw", "code:quit"],
    &["garbage", "unknown method", "missing parameters", "ill-typed parameters", "unknown command", "unknown choice", "request of a client that is not there", "unknown view", "unknown buffer", "unreadable file opened"],
    Weights { raw: 20, faults: 3, menu: 4, select: 4, breakkeys: 1, ..BASE }, 24, (16_000, 800_000));
profile!(P10, "C10",
    "histories of every kind of request by up to 4 clients sharing buffers. Oracle: after each step, the last view each client was sent against its rendering by the model and against the view it gets when it asks for it again; the messages, errors, menus, hints, status lines and greetings of the step against those of the model, and the logs. Non-trivial: a change under another client.",
    &["stale", "spurious", "echo", "reports", "hint", "info", "menu-to", "status", "log", "items", "highlight", "content"],
    &["deletion under another client", "scratch rewritten under another client", "text appended under several clients", "view deleted under several clients", "view changed into one shown by another client"],
    Weights { join: 4, exec: 12, keys: 8, deletes: 4, breakkeys: 1, faults: 2, ..BASE }, 24, (16_000, 800_000));
profile!(P16, "C16",
    "histories with menus opened, searched and chosen from (entries offered before and since gone, free texts, scripts), the files, buffers and views changing meanwhile. Oracle: what the model offers and the effect of the corresponding request. Non-trivial: an entry chosen, a menu of several entries filtered, or an unknown choice.",
    &["menu", "menu-to", "code:menu", "view", "items", "content"],
    &["entry chosen", "menu filtered", "unknown choice"],
    Weights { menu: 16, select: 16, disk: 5, edit: 6, keys: 1, exec: 3, raw: 1, ..BASE }, 24, (16_000, 800_000));
profile!(P19, "C19",
    "histories of lists of keys, mapped or not, by up to 4 clients sharing views, with other requests between. Oracle: a model of each client's modes, selections and status line. Non-trivial: a key handled in a mode other than the normal one, or a handled key with several clients.",
    &["status", "sel", "hint", "code:keys", "highlight", "echo", "content"],
    &["key handled in another mode", "several keys at once"],
    Weights { keys: 30, join: 4, exec: 4, breakkeys: 1, raw: 0, menu: 0, select: 0, ..BASE }, 24, (16_000, 800_000));
profile!(P20, "C20",
    "histories of scripts: statements of the whole script interface, each script reporting identity, context and deleted text, and failing in sixteen ways, caught or not. Oracle: the model. Non-trivial: a script that failed, or an error caught, or a context reported.",
    &["ctxdata", "view", "sel", "code:exec", "echo", "reports", "valid", "resp"],
    &["script failed", "error caught", "context reported"],
    Weights { exec: 24, faults: 12, keys: 3, breakkeys: 1, select: 2, menu: 2, ..BASE }, 20, (8_000, 400_000));
