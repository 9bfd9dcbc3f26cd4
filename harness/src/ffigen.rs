//! C25: the functions generated for the C interface

use crate::engine::*;
use crate::{ensure, ensure_eq};
use ffigen::SourceBuilder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub struct C25;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Decl {
    pub symbol: String,
    pub module: Option<String>,
    pub functions: Table,
}

/// the functions table of a structure
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Table {
    Absent,
    Empty,
    Iterator(bool),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Bad {
    Missing,
    Directory,
    NotUtf8,
    NotToml,
    NoStructures,
    NoSymbol,
    IllTyped,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Case {
    Good { header: Option<String>, prefix: Option<String>, decls: Vec<Decl>, old: String, absolute: bool },
    Bad(Bad),
}

const WORDS: &[&str] = &["Ced", "Foo", "B", "View", "C", "HTTP", "V2", "Lens", "Iter", "It", "Cedar", "My", "Item", "X"];

fn decl() -> BoxedStrategy<Decl> {
    (
        prop::collection::vec(prop::sample::select(WORDS.to_vec()), 1..4),
        prop::sample::select(vec!["", "", "Item", "Item", "Iterator", "Items"]),
        prop::sample::select(vec![None, Some("crate"), Some("crate::m1"), Some("crate::m1::m2"), Some("crate::event")]),
        prop::sample::select(vec![Table::Absent, Table::Empty, Table::Iterator(false), Table::Iterator(true), Table::Iterator(true), Table::Iterator(true)]),
    )
        .prop_map(|(w, suffix, module, functions)| Decl {
            symbol: w.concat() + suffix,
            module: module.map(String::from),
            functions,
        })
        .boxed()
}

fn snake(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && c.is_uppercase() {
            out.push('_');
        }
        out.extend(c.to_lowercase());
    }
    out
}

fn bare(s: &str) -> &str {
    s.strip_suffix("Item").or_else(|| s.strip_suffix("Iterator")).unwrap_or(s)
}

fn named(prefix: &str, name: String) -> String {
    if name.starts_with(prefix) {
        name
    } else {
        format!("{}{}", prefix, name)
    }
}

struct Want {
    symbol: String,
    module: String,
    destroy: String,
    /// iterator type, its destroy and next functions
    iterator: Option<(String, String, String)>,
}

/// the functions expected; descriptions which name two things alike are reduced
fn wanted(prefix: &str, decls: &[Decl]) -> (Vec<Decl>, Vec<Want>) {
    let mut types = HashSet::new();
    let mut fns = HashSet::new();
    let mut kept = Vec::new();
    let mut out = Vec::new();
    for d in decls {
        let iterated = d.functions == Table::Iterator(true);
        if bare(&d.symbol).is_empty() || (iterated && d.symbol.ends_with("Iterator")) {
            continue;
        }
        let w = Want {
            symbol: d.symbol.clone(),
            module: d.module.clone().unwrap_or_else(|| "crate".into()),
            destroy: named(prefix, snake(&d.symbol) + "_destroy"),
            iterator: iterated.then(|| {
                let it = bare(&d.symbol).to_owned() + "Iterator";
                let destroy = named(prefix, snake(&it) + "_destroy");
                let next = named(prefix, snake(bare(&d.symbol)) + "_next_item");
                (it, destroy, next)
            }),
        };
        let mut t = vec![w.symbol.clone()];
        let mut f = vec![w.destroy.clone()];
        if let Some((it, d, n)) = &w.iterator {
            t.push(it.clone());
            f.push(d.clone());
            f.push(n.clone());
        }
        if t.iter().any(|x| types.contains(x)) || f.iter().any(|x| fns.contains(x)) {
            continue;
        }
        types.extend(t);
        fns.extend(f);
        kept.push(d.clone());
        out.push(w);
    }
    (kept, out)
}

fn quoted(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn description(header: &Option<String>, prefix: &Option<String>, decls: &[Decl]) -> String {
    let mut s = String::new();
    if let Some(h) = header {
        writeln!(s, "header = {}", quoted(h)).unwrap();
    }
    if let Some(p) = prefix {
        writeln!(s, "prefix = {}", quoted(p)).unwrap();
    }
    for d in decls {
        writeln!(s, "\n[[structure]]\nsymbol = {}", quoted(&d.symbol)).unwrap();
        if let Some(m) = &d.module {
            writeln!(s, "module = {}", quoted(m)).unwrap();
        }
        if d.functions != Table::Absent {
            writeln!(s, "[structure.functions]").unwrap();
            if let Table::Iterator(b) = d.functions {
                writeln!(s, "iterator = {}", b).unwrap();
            }
        }
    }
    s
}

/// a program defining the described types, which calls what was generated
fn program(wants: &[Want]) -> String {
    let mut s = String::from(
        "#![allow(warnings)]\n#[path = \"gen.rs\"]\nmod ffi;\nuse std::cell::RefCell;\nthread_local!(static DROPS: RefCell<Vec<(u32, u64)>> = RefCell::new(Vec::new()));\n\
         pub fn dropped(a: u32, b: u64) { DROPS.with(|d| d.borrow_mut().push((a, b))) }\n\
         fn take() -> Vec<(u32, u64)> { DROPS.with(|d| d.borrow_mut().drain(..).collect()) }\n\
         fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) { if got != want { println!(\"{}: got {:?}, expected {:?}\", what, got, want); std::process::exit(1) } }\n",
    );
    let defs = |m: &str| -> String {
        let mut s = String::new();
        for (k, w) in wants.iter().enumerate().filter(|(_, w)| w.module == m) {
            let k = 2 * k;
            writeln!(s, "pub struct {0} {{ pub n: u64 }} impl Drop for {0} {{ fn drop(&mut self) {{ crate::dropped({1}, self.n) }} }}", w.symbol, k).unwrap();
            if let Some((it, ..)) = &w.iterator {
                writeln!(s, "pub struct {0} {{ pub n: u64, pub left: u64 }} impl Drop for {0} {{ fn drop(&mut self) {{ crate::dropped({1}, self.n) }} }}", it, k + 1).unwrap();
                writeln!(s, "impl std::iter::Iterator for {0} {{ type Item = {1}; fn next(&mut self) -> Option<{1}> {{ if self.left == 0 {{ return None }} self.left -= 1; Some({1} {{ n: 100 + self.left }}) }} }}", it, w.symbol).unwrap();
            }
        }
        s
    };
    s += &defs("crate");
    writeln!(s, "pub mod m1 {{ {} pub mod m2 {{ {} }} }}\npub mod event {{ {} }}", defs("crate::m1"), defs("crate::m1::m2"), defs("crate::event")).unwrap();
    s += "mod ext { extern \"C\" {\n";
    for w in wants {
        writeln!(s, "pub fn {}(p: *mut u8);", w.destroy).unwrap();
        if let Some((_, d, n)) = &w.iterator {
            writeln!(s, "pub fn {}(p: *mut u8); pub fn {}(p: *mut u8) -> *mut u8;", d, n).unwrap();
        }
    }
    s += "} }\nfn main() { unsafe {\n";
    for (k, w) in wants.iter().enumerate() {
        let k = 2 * k;
        let ty = format!("{}::{}", w.module, w.symbol);
        writeln!(s, "let destroy: unsafe extern \"C\" fn(*mut {}) = ffi::{};", ty, w.destroy).unwrap();
        writeln!(s, "same(\"symbol {0}\", ext::{0} as usize, destroy as usize);", w.destroy).unwrap();
        writeln!(s, "destroy(std::ptr::null_mut()); same(\"null {0}\", take(), vec![]);", w.destroy).unwrap();
        writeln!(s, "destroy(Box::into_raw(Box::new({} {{ n: 7 }}))); same(\"{}\", take(), vec![({}, 7)]);", ty, w.destroy, k).unwrap();
        if let Some((it, d, n)) = &w.iterator {
            let ity = format!("{}::{}", w.module, it);
            writeln!(s, "let it_destroy: unsafe extern \"C\" fn(*mut {}) = ffi::{};", ity, d).unwrap();
            writeln!(s, "same(\"symbol {0}\", ext::{0} as usize, it_destroy as usize);", d).unwrap();
            writeln!(s, "let next: unsafe extern \"C\" fn(*mut {}) -> *mut {} = ffi::{};", ity, ty, n).unwrap();
            writeln!(s, "same(\"symbol {0}\", ext::{0} as usize, next as usize);", n).unwrap();
            writeln!(s, "it_destroy(std::ptr::null_mut()); same(\"null {0}\", take(), vec![]);", d).unwrap();
            writeln!(s, "let p = Box::into_raw(Box::new({} {{ n: 5, left: 3 }}));", ity).unwrap();
            writeln!(s, "let items = [next(p), next(p), next(p)]; let none = [next(p), next(p)];").unwrap();
            writeln!(s, "same(\"end of {0}\", none.iter().all(|p| p.is_null()), true); same(\"items of {0}\", items.iter().any(|p| p.is_null()), false);", n).unwrap();
            writeln!(s, "same(\"order of {}\", items.iter().map(|p| (**p).n).collect::<Vec<_>>(), vec![102, 101, 100]); same(\"items live\", take(), vec![]);", n).unwrap();
            writeln!(s, "for p in items.iter().take(2) {{ destroy(*p) }} same(\"items released\", take(), vec![({0}, 102), ({0}, 101)]);", k).unwrap();
            writeln!(s, "it_destroy(p); same(\"{}\", take(), vec![({}, 5)]);", d, k + 1).unwrap();
            writeln!(s, "same(\"item after its iterator\", (*items[2]).n, 100); destroy(items[2]); same(\"last item\", take(), vec![({}, 100)]);", k).unwrap();
        }
    }
    s += "} println!(\"fine\"); }\n";
    s
}

/// the compiler itself, and the path programs are looked for in
fn compiler() -> &'static (PathBuf, String) {
    static C: OnceLock<(PathBuf, String)> = OnceLock::new();
    C.get_or_init(|| {
        let path = std::env::var("PATH").unwrap_or_default();
        let rustc = std::env::var("CED_VERIF_RUSTC").expect("HARNESS: CED_VERIF_RUSTC names the compiler");
        // the code under test starts the formatter: nothing must be found
        std::env::set_var("PATH", "/nonexistent");
        (PathBuf::from(rustc), path)
    })
}

fn short(s: &str) -> String {
    s.chars().take(1500).collect()
}

/// words of the code, out of comments
fn words(source: &str) -> Vec<String> {
    let code: String = source.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
    code.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(String::from).collect()
}

fn check_good(header: &Option<String>, prefix: &Option<String>, decls: &[Decl], old: &str, absolute: bool, cov: &mut Cov) -> Res {
    let (rustc, path) = compiler();
    let dir = std::env::current_dir().unwrap().join("ffi");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("HARNESS: directory");
    let (decls, wants) = wanted(prefix.as_deref().unwrap_or(""), decls);
    let toml = description(header, prefix, &decls);
    if decls.is_empty() {
        return Ok(());
    }
    std::fs::write(dir.join("ffigen.toml"), &toml).expect("HARNESS: description");
    let builder = match SourceBuilder::generate(&dir) {
        Ok(b) => b,
        Err(e) => return Err(Fail::new("refused", format!("description refused: {}\n{}", e, toml))),
    };
    let source = builder.source();
    let h = header.clone().unwrap_or_else(|| "// This file is automatically generated when building.".into());
    ensure!(source.starts_with(&format!("{}\n", h)), "header", "the source does not begin with {:?}: {:?}", h, short(&source));
    let code = &source[h.len()..];
    let functions = words(code).iter().filter(|w| *w == "fn").count();
    let expected: usize = wants.iter().map(|w| if w.iterator.is_some() { 3 } else { 1 }).sum();
    ensure_eq!(functions, expected, "functions", "number of functions generated for\n{}", toml);

    // written where told, whatever was there
    std::fs::write(dir.join("gen.rs"), old).expect("HARNESS: former file");
    let dest = if absolute { dir.join("gen.rs") } else { PathBuf::from("gen.rs") };
    let wrote = builder.write_to_file(&dest);
    ensure!(wrote.is_ok(), "write", "writing the source: {:?}", wrote);
    let written = std::fs::read_to_string(dir.join("gen.rs")).expect("HARNESS: generated file");
    ensure_eq!(written, source, "write", "file written");
    let lost = builder.write_to_file("nowhere/gen.rs");
    ensure!(lost.is_err(), "write", "written to a directory which does not exist: {:?}", lost);

    std::fs::write(dir.join("main.rs"), program(&wants)).expect("HARNESS: program");
    let out = Command::new(rustc)
        .args(["--edition", "2018", "-Cdebuginfo=0", "-Copt-level=0", "-Cincremental=false"])
        .args(["-o", "prog", "main.rs"])
        .current_dir(&dir)
        .env("PATH", path)
        .stdin(Stdio::null())
        .output()
        .expect("HARNESS: run rustc");
    let errors = String::from_utf8_lossy(&out.stderr).into_owned();
    if !out.status.success() {
        // only what is said of the code is believed
        ensure!(!errors.contains("error[E") && !errors.contains("error: expected"), "compile", "the source generated for\n{}\ndoes not compile: {}", toml, short(&errors));
        ensure!(!errors.contains("undefined symbol") && !errors.contains("undefined reference"), "symbol", "a function generated for\n{}\nis not exported: {}", toml, short(&errors));
        panic!("HARNESS: rustc: {}", short(&errors));
    }
    let out = Command::new(dir.join("prog")).current_dir(&dir).output().expect("HARNESS: run the program");
    let said = String::from_utf8_lossy(&out.stdout).into_owned();
    ensure!(said == "fine\n", "behaviour", "functions generated for\n{}\n{} {}", toml, out.status, short(&said));

    cov.mark_if(wants.len() > 1 && wants.iter().any(|w| w.iterator.is_some()), "several structures, some iterated");
    cov.hit_if(wants.iter().any(|w| prefix.as_ref().map_or(false, |p| !p.is_empty() && snake(&w.symbol).starts_with(p))), "prefix not doubled");
    cov.hit_if(wants.iter().any(|w| w.iterator.is_some() && !w.symbol.ends_with("Item")), "iterated without suffix");
    cov.hit_if(header.is_some(), "own header");
    cov.hit_if(old.len() > source.len(), "longer file replaced");
    Ok(())
}

fn check_bad(bad: &Bad, cov: &mut Cov) -> Res {
    compiler();
    let dir = std::env::current_dir().unwrap().join("ffi");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("HARNESS: directory");
    let file = dir.join("ffigen.toml");
    let put = |s: &[u8]| std::fs::write(&file, s).expect("HARNESS: description");
    match bad {
        Bad::Missing => (),
        Bad::Directory => std::fs::create_dir(&file).expect("HARNESS: directory"),
        Bad::NotUtf8 => put(b"prefix = \"\xff\"\n[[structure]]\nsymbol = \"A\"\n"),
        Bad::NotToml => put(b"[[structure]\nsymbol = A\n"),
        Bad::NoStructures => put(b"prefix = \"ced_\"\n"),
        Bad::NoSymbol => put(b"[[structure]]\nmodule = \"crate\"\n"),
        Bad::IllTyped => put(b"[[structure]]\nsymbol = \"A\"\n[structure.functions]\niterator = 1\n"),
    }
    let r = SourceBuilder::generate(&dir).map(|b| b.source());
    ensure!(r.is_err(), "accepted", "{:?}: description accepted: {:?}", bad, r.map(|s| short(&s)));
    cov.mark("description refused");
    Ok(())
}

impl Prop for C25 {
    const ID: &'static str = "C25";
    const RULE: &'static str = "descriptions of 1 to 8 structures (names of any shape, in several modules, iterated or not, defaults left out or written, own headers and prefixes) given to the generator; what it generates is compiled with types counting their releases, and every function called by its name and by its symbol; descriptions which cannot be read or are not valid. Non-trivial: several structures, at least one iterated, or a refused description.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the names of the described structures are distinct camel-case names, their functions' names too",
        "the formatter started on the written file does not change its meaning (it is kept from running)",
    ];
    const AS_LIMIT_MB: u64 = 16384;
    const SHRINK_STEPS: u32 = 200;
    type Case = Case;
    fn cases(tier: Tier) -> u64 {
        tier.pick(600, 12_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let header = prop::sample::select(vec![None, Some("// generated"), Some("// one\n// two"), Some("/* é \"q\" \\ */"), Some(""), Some("// one\n"), Some("\n\t// two \n\n"), Some("//")]);
        let prefix = prop::sample::select(vec![None, Some(""), Some("ced_"), Some("ced_"), Some("c"), Some("my_lib_"), Some("foo")]);
        prop_oneof![
            12 => (header, prefix, prop::collection::vec(decl(), 1..9), 0usize..4, any::<bool>()).prop_map(|(h, p, decls, old, absolute)| Case::Good {
                header: h.map(String::from),
                prefix: p.map(String::from),
                decls,
                old: "// former line\n".repeat(old * old * 100),
                absolute,
            }),
            1 => prop::sample::select(vec![Bad::Missing, Bad::Directory, Bad::NotUtf8, Bad::NotToml, Bad::NoStructures, Bad::NoSymbol, Bad::IllTyped]).prop_map(Case::Bad),
        ]
        .boxed()
    }
    fn check(case: &Case, cov: &mut Cov) -> Res {
        match case {
            Case::Good { header, prefix, decls, old, absolute } => check_good(header, prefix, decls, old, *absolute, cov),
            Case::Bad(b) => check_bad(b, cov),
        }
    }
}
