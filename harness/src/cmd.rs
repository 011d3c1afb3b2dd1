//! L15 and L16: command lines and linker scripts over generated file trees, judged by a reference
//! interpreter that works out which inputs they mean.
use crate::case::*;
use crate::gen::{self, Profile};
use crate::model::resolve;
use crate::props::*;
use crate::run::*;
use crate::tape::Tape;
use crate::write;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ent {
    Obj(usize),
    Ar(usize),
    Lib(usize),
    Script(Vec<u8>),
    Dir,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmd {
    /// objects, archives and libraries; its command line is not used
    pub case: Case,
    /// path below the scratch directory -> what is there
    pub files: BTreeMap<String, Ent>,
    /// "@@" stands for the scratch directory
    pub argv: Vec<String>,
}

pub enum Meaning {
    Link { case: Case, out: String },
    Reject(&'static str),
    Help,
    /// nothing is promised about it
    Open(&'static str),
}

/// A listed finding: what follows AS_NEEDED ( ... ) in a script is taken as if it stood inside it.
pub const STICKY: &str = "plain-input-after-AS_NEEDED-block";

const NONSENSE: &[&str] = &["--frobnicate", "-q9", "--no-such-option=1", "-y"];

struct Interp<'a> {
    cmd: &'a Cmd,
    out: Option<String>,
    interp: Option<String>,
    hash: Option<String>,
    dirs: Vec<String>,
    help: bool,
    case: Case,
    found: Vec<(Ent, bool, bool)>,
    stack: Vec<String>,
}

enum Stop {
    Reject(&'static str),
    Open(&'static str),
}

/// A path below the scratch directory in normal form; None if it leaves it or is odd.
fn norm(p: &str) -> Result<Option<String>, Stop> {
    let rest = if let Some(r) = p.strip_prefix("@@/") {
        r
    } else if p.starts_with('/') || p.contains("@@") {
        return Ok(None);
    } else {
        p
    };
    let mut v = vec![];
    for c in rest.split('/') {
        match c {
            "" | "." => {}
            ".." => return Err(Stop::Open("a path with ..")),
            c => v.push(c),
        }
    }
    if p.ends_with('/') {
        return Err(Stop::Open("a path ending in a slash"));
    }
    Ok(Some(v.join("/")))
}

#[derive(Debug, PartialEq)]
pub enum Script {
    /// (name, under AS_NEEDED, after an AS_NEEDED of the same script)
    Inputs(Vec<(String, bool, bool)>),
    Malformed,
    Open,
}

fn arg_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || "-._/+~".contains(c)
}

/// An independent recogniser of the documented scripts.
pub fn script(b: &[u8]) -> Script {
    let Ok(text) = std::str::from_utf8(b) else { return Script::Malformed };
    if text.chars().any(|c| !c.is_ascii() || c == '\x0b' || c == '\x0c' || c == '\0') {
        return Script::Open;
    }
    match strict(text) {
        Some(v) => Script::Inputs(v),
        None if liberal(text) => Script::Open,
        None => Script::Malformed,
    }
}

struct Scan<'a> {
    c: &'a [u8],
    i: usize,
}

impl<'a> Scan<'a> {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_ascii_whitespace() {
            self.i += 1
        }
    }
    fn lit(&mut self, s: &str) -> bool {
        let ok = self.c[self.i..].starts_with(s.as_bytes());
        if ok {
            self.i += s.len()
        }
        ok
    }
    fn name(&mut self) -> Option<String> {
        let a = self.i;
        while self.i < self.c.len() && arg_char(self.c[self.i] as char) {
            self.i += 1
        }
        if self.i == a {
            None
        } else {
            Some(String::from_utf8(self.c[a..self.i].to_vec()).unwrap())
        }
    }
}

fn strict(text: &str) -> Option<Vec<(String, bool, bool)>> {
    let mut s = Scan { c: text.as_bytes(), i: 0 };
    let mut out = vec![];
    let mut after = false;
    loop {
        s.ws();
        if s.i == s.c.len() {
            return Some(out);
        }
        if s.lit("/*") {
            loop {
                if s.lit("*/") {
                    break;
                }
                if s.i == s.c.len() {
                    return None;
                }
                s.i += 1;
            }
        } else if s.lit("OUTPUT_FORMAT") {
            s.ws();
            if !s.lit("(") {
                return None;
            }
            s.ws();
            s.name()?;
            s.ws();
            if !s.lit(")") {
                return None;
            }
        } else if s.lit("GROUP") {
            s.ws();
            if !s.lit("(") {
                return None;
            }
            loop {
                s.ws();
                if s.lit(")") {
                    break;
                }
                let n = s.name()?;
                let at = s.i;
                s.ws();
                if n == "AS_NEEDED" && s.lit("(") {
                    loop {
                        s.ws();
                        if s.lit(")") {
                            break;
                        }
                        out.push((s.name()?, true, false));
                    }
                    after = true;
                } else {
                    s.i = at;
                    out.push((n, false, after));
                }
            }
        } else {
            return None;
        }
    }
}

/// Whether the text may be a script by someone else's definition: other commands, comments and
/// separators inside commands, quoted names.
fn liberal(text: &str) -> bool {
    let mut s = Scan { c: text.as_bytes(), i: 0 };
    let mut depth = 0;
    let words = ["GROUP", "OUTPUT_FORMAT", "INPUT", "OUTPUT", "ENTRY", "SEARCH_DIR", "TARGET", "STARTUP", "INCLUDE", "AS_NEEDED", "OUTPUT_ARCH", "ASSERT", "EXTERN", "VERSION", "SECTIONS", "MEMORY", "PHDRS"];
    let mut top: Vec<String> = vec![];
    while s.i < s.c.len() {
        let c = s.c[s.i] as char;
        if s.lit("/*") {
            match text[s.i..].find("*/") {
                Some(k) => s.i += k + 2,
                None => return false,
            }
            continue;
        }
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth < 0 {
                    return false;
                }
            }
            _ if depth == 0 && (c.is_ascii_alphanumeric() || c == '_') => {
                let a = s.i;
                while s.i < s.c.len() && (s.c[s.i].is_ascii_alphanumeric() || s.c[s.i] == b'_') {
                    s.i += 1;
                }
                top.push(text[a..s.i].to_string());
                continue;
            }
            ';' | ',' => {}
            c if c.is_ascii_whitespace() => {}
            _ if depth == 0 => return false,
            _ => {}
        }
        s.i += 1;
    }
    depth == 0 && top.iter().all(|w| words.contains(&&w[..])) && {
        // something in it has to be beyond the documented form
        let plain = text.contains("/*") || text.contains(',') || text.contains(';') || text.contains('"');
        let other = top.iter().any(|w| w != "GROUP" && w != "OUTPUT_FORMAT");
        let odd = text.chars().any(|c| !arg_char(c) && !c.is_ascii_whitespace() && !"()*".contains(c));
        plain || other || odd
    }
}

impl<'a> Interp<'a> {
    fn file(&self, p: &str) -> Result<Option<(String, &'a Ent)>, Stop> {
        if p.is_empty() {
            return Ok(None);
        }
        Ok(norm(p)?.and_then(|n| self.cmd.files.get_key_value(&n)).filter(|(_, e)| **e != Ent::Dir).map(|(n, e)| (n.clone(), e)))
    }

    fn in_dir(&self, d: &str, f: &str) -> Result<Option<(String, &'a Ent)>, Stop> {
        if f.starts_with('/') || f.starts_with("@@") {
            return Ok(None);
        }
        self.file(&format!("{}/{}", d.trim_end_matches('/'), f))
    }

    fn plain(&self, f: &str) -> Result<Option<(String, &'a Ent)>, Stop> {
        if let Some(x) = self.file(f)? {
            return Ok(Some(x));
        }
        for d in &self.dirs {
            if let Some(x) = self.in_dir(d, f)? {
                return Ok(Some(x));
            }
        }
        Ok(None)
    }

    fn library(&self, n: &str) -> Result<Option<(String, &'a Ent)>, Stop> {
        if n.is_empty() || n.contains('/') || n.starts_with(':') {
            return Err(Stop::Open("an odd library name"));
        }
        let mut best: [Option<(usize, (String, &'a Ent))>; 2] = [None, None];
        for (k, ext) in ["so", "a"].iter().enumerate() {
            for (i, d) in self.dirs.iter().enumerate() {
                if let Some(x) = self.in_dir(d, &format!("lib{}.{}", n, ext))? {
                    best[k] = Some((i, x));
                    break;
                }
            }
        }
        match best {
            [Some((i, _)), Some((j, _))] if i > j => Err(Stop::Open("a shared library in a later directory than an archive")),
            [Some(x), _] | [None, Some(x)] => Ok(Some(x.1)),
            _ => Ok(None),
        }
    }

    fn input(&mut self, name: &str, lib: bool, as_needed: bool, after: bool) -> Result<(), Stop> {
        let hit = if lib { self.library(name)? } else { self.plain(name)? };
        let Some((path, ent)) = hit else {
            return Err(Stop::Reject(if lib { "missing library" } else { "missing file" }));
        };
        if let Ent::Script(text) = ent {
            if self.stack.contains(&path) {
                return Err(Stop::Reject("a script that includes itself"));
            }
            if self.stack.len() > 20 {
                return Err(Stop::Open("deeply nested scripts"));
            }
            let abs = String::from_utf8_lossy(text).into_owned();
            match script(abs.as_bytes()) {
                _ if std::str::from_utf8(text).is_err() => return Err(Stop::Reject("a text that is no script")),
                Script::Malformed => return Err(Stop::Reject("a text that is no script")),
                Script::Open => return Err(Stop::Open("text that others may take for a script")),
                Script::Inputs(v) => {
                    self.stack.push(path);
                    for (n, a, af) in v {
                        if let Some(l) = n.strip_prefix("-l") {
                            self.input(l, true, as_needed || a, after || af)?;
                        } else if n.starts_with('-') {
                            return Err(Stop::Open("an option in a script"));
                        } else {
                            self.input(&n, false, as_needed || a, after || af)?;
                        }
                    }
                    self.stack.pop();
                }
            }
            return Ok(());
        }
        if let Ent::Obj(_) = ent {
            if self.found.iter().any(|f| f.0 == *ent) {
                return Err(Stop::Open("an object given twice"));
            }
        }
        if let Ent::Lib(l) = ent {
            let base = path.rsplit('/').next().unwrap().to_string();
            let lib = &mut self.case.libs[*l];
            if lib.soname.is_none() && lib.file.as_ref().map_or(false, |f| *f != base) {
                return Err(Stop::Open("a library that goes by two names"));
            }
            lib.file = Some(base);
        }
        self.found.push((ent.clone(), as_needed, after));
        Ok(())
    }

    fn run(&mut self) -> Result<(), Stop> {
        let a = &self.cmd.argv;
        let mut i = 0;
        let mut inputs: Vec<(String, bool, bool)> = vec![];
        let mut as_needed = false;
        while i < a.len() {
            let s = a[i].as_str();
            i += 1;
            match s {
                "-m" | "-o" | "-dynamic-linker" | "-L" | "-l" | "-z" | "--hash-style" => {
                    let Some(v) = a.get(i) else { return Err(Stop::Reject("missing argument")) };
                    i += 1;
                    if v.is_empty() || v.starts_with('-') {
                        return Err(Stop::Open("an odd argument"));
                    }
                    match s {
                        "-m" if v != "elf_x86_64" => return Err(Stop::Reject("unknown emulation")),
                        "-o" => self.out = Some(v.clone()),
                        "-dynamic-linker" => self.interp = Some(v.clone()),
                        "-L" => self.dirs.push(v.clone()),
                        "-l" => inputs.push((v.clone(), true, as_needed)),
                        "--hash-style" => {
                            if !["sysv", "gnu", "both"].contains(&&v[..]) {
                                return Err(Stop::Reject("unknown hash style"));
                            }
                            self.hash = Some(v.clone());
                        }
                        _ => {}
                    }
                }
                "--build-id" => {
                    if let Some(v) = a.get(i) {
                        if ["uuid", "sha1", "md5"].contains(&&v[..]) {
                            i += 1;
                        } else if let Some(h) = v.strip_prefix("0x") {
                            if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                                return Err(Stop::Open("an odd build id"));
                            }
                            i += 1;
                        }
                    }
                }
                "--help" | "-h" => self.help = true,
                "--eh-frame-hdr" | "--start-group" | "--end-group" => {}
                "--as-needed" => as_needed = true,
                "--no-as-needed" => as_needed = false,
                _ => {
                    if let Some(v) = s.strip_prefix("--hash-style=") {
                        if !["sysv", "gnu", "both"].contains(&v) {
                            return Err(Stop::Reject("unknown hash style"));
                        }
                        self.hash = Some(v.into());
                    } else if let Some(v) = s.strip_prefix("-L") {
                        if v.starts_with('-') {
                            return Err(Stop::Open("an odd directory"));
                        }
                        self.dirs.push(v.into());
                    } else if let Some(v) = s.strip_prefix("-l") {
                        inputs.push((v.into(), true, as_needed));
                    } else if NONSENSE.contains(&s) {
                        return Err(Stop::Reject("unknown option"));
                    } else if s.starts_with('-') {
                        return Err(Stop::Open("an option of other linkers"));
                    } else {
                        inputs.push((s.into(), false, as_needed));
                    }
                }
            }
        }
        for d in &self.dirs.clone() {
            norm(d.strip_suffix('/').unwrap_or(d))?;
        }
        for (n, lib, as_needed) in inputs {
            self.input(&n, lib, as_needed, false)?;
        }
        Ok(())
    }
}

pub fn interpret(cmd: &Cmd) -> Meaning {
    let mut it = Interp { cmd, out: None, interp: None, hash: None, dirs: vec![], help: false, case: cmd.case.clone(), found: vec![], stack: vec![] };
    match it.run() {
        Err(_) if it.help => return Meaning::Open("help is asked for besides"),
        Err(Stop::Reject(w)) => return Meaning::Reject(w),
        Err(Stop::Open(w)) => return Meaning::Open(w),
        Ok(()) => {}
    }
    if it.help {
        return Meaning::Help;
    }
    let Some(out) = it.out else { return Meaning::Open("no -o") };
    let out = match norm(&out) {
        Ok(Some(o)) if !o.is_empty() => o,
        _ => return Meaning::Open("an odd output path"),
    };
    if cmd.files.contains_key(&out) {
        return Meaning::Open("the output is an input or a directory");
    }
    let parent = out.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
    if !parent.is_empty() && !all_dirs(cmd).contains(&parent) {
        return Meaning::Reject("the output cannot be created");
    }
    let mut c = it.case;
    c.hash_style = it.hash;
    c.interp = it.interp;
    c.inputs.clear();
    c.open_libs.clear();
    let mut state = false;
    for (e, a, after) in it.found {
        match e {
            Ent::Obj(o) => c.inputs.push(Input::Obj(o)),
            Ent::Ar(x) => c.inputs.push(Input::Ar(x)),
            Ent::Lib(l) => {
                if a != state {
                    c.inputs.push(Input::AsNeeded(a));
                    state = a;
                }
                c.inputs.push(Input::Lib(l));
                if after && !a {
                    c.open_libs.push(l);
                }
            }
            _ => {}
        }
    }
    let libs: Vec<usize> = c.inputs.iter().filter_map(|i| if let Input::Lib(l) = i { Some(*l) } else { None }).collect();
    let names: BTreeSet<(usize, String)> = libs.iter().map(|l| (*l, c.needed_name(*l))).collect();
    let distinct: BTreeSet<&String> = names.iter().map(|n| &n.1).collect();
    if distinct.len() != names.len() {
        return Meaning::Open("two libraries of one name");
    }
    let start = c.inputs.iter().any(|i| matches!(i, Input::Obj(o) if c.objs[*o].syms.iter().any(|s| s.name == "_start" && s.place != Place::Undef)));
    if !start {
        return Meaning::Open("no _start");
    }
    Meaning::Link { case: c, out }
}

fn all_dirs(cmd: &Cmd) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for (p, e) in &cmd.files {
        let mut parts: Vec<&str> = p.split('/').collect();
        if *e != Ent::Dir {
            parts.pop();
        }
        for k in 1..=parts.len() {
            v.insert(parts[..k].join("/"));
        }
    }
    v
}

// ---------------------------------------------------------------- running

pub fn write_tree(cmd: &Cmd, dir: &Path) -> Vec<Vec<u64>> {
    let c = &cmd.case;
    for d in all_dirs(cmd) {
        std::fs::create_dir_all(dir.join(&d)).unwrap_or_else(|e| crate::fatal(&format!("mkdir {}: {}", d, e)));
        give(&dir.join(&d));
    }
    let bytes: Vec<Vec<u8>> = c.objs.iter().map(write::object).collect();
    let libs: Vec<(Vec<u8>, Vec<u64>)> = c.libs.iter().enumerate().map(|(i, l)| write::shared(i, l)).collect();
    for (p, e) in &cmd.files {
        let p = dir.join(p);
        match e {
            Ent::Obj(o) => put(&p, &bytes[*o]),
            Ent::Ar(a) => put(&p, &write::archive(&c.archives[*a], &c.objs, &bytes)),
            Ent::Lib(l) => put(&p, &libs[*l].0),
            Ent::Script(t) => {
                // "@@" as on the command line
                let mut out = vec![];
                let mut i = 0;
                while i < t.len() {
                    if t[i..].starts_with(b"@@") {
                        out.extend(dir.to_str().unwrap().bytes());
                        i += 2;
                    } else {
                        out.push(t[i]);
                        i += 1;
                    }
                }
                put(&p, &out)
            }
            Ent::Dir => {}
        }
    }
    libs.into_iter().map(|l| l.1).collect()
}

fn tree(dir: &Path) -> BTreeMap<String, (u64, u32)> {
    use std::os::unix::fs::{MetadataExt, PermissionsExt};
    fn go(d: &Path, pre: &str, v: &mut BTreeMap<String, (u64, u32)>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{}{}", pre, e.file_name().to_string_lossy());
            if let Ok(m) = e.metadata() {
                if m.is_dir() {
                    go(&e.path(), &format!("{}/", n), v);
                } else {
                    v.insert(n, (m.mtime() as u64 * 1_000_000_000 + m.mtime_nsec() as u64, m.permissions().mode()));
                }
            }
        }
    }
    let mut v = BTreeMap::new();
    go(dir, "", &mut v);
    v
}

fn argv_outs(argv: &[String]) -> Vec<String> {
    argv.windows(2).filter(|w| w[0] == "-o").filter_map(|w| norm(&w[1]).ok().flatten()).chain(["a.out".to_string()]).collect()
}

pub fn eval(cmd: &Cmd, env: &Env, aspects: &[&str], scripts: bool) -> Eval {
    let mut ev = Eval::default();
    clean(&env.dir);
    let lib_offs = write_tree(cmd, &env.dir);
    let before = tree(&env.dir);
    let root = env.dir.to_str().unwrap();
    let argv: Vec<String> = cmd.argv.iter().map(|a| a.replace("@@", root)).collect();
    let o = run(&env.dld, &argv, &env.dir, &Limits::default(), &[]);
    let after = tree(&env.dir);
    let meaning = interpret(cmd);
    let has_script = cmd.files.values().any(|e| matches!(e, Ent::Script(_)));
    let mut label = |l: &'static str| *ev.labels.entry(l).or_insert(0) += 1;
    if o.signal.is_some() {
        ev.fails.push(format!("[link] {}", o.brief()));
        return ev;
    }
    let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
    // a file named as the output may change
    let outs: Vec<String> = argv_outs(&cmd.argv);
    let changed: Vec<&String> = before.keys().filter(|k| after.get(*k) != before.get(*k) && !outs.contains(k)).collect();
    if !changed.is_empty() {
        ev.fails.push(format!("[files] {:?} changed", changed));
    }
    match meaning {
        Meaning::Open(w) => {
            let _ = w;
            label("command lines about which nothing is promised");
        }
        Meaning::Help => {
            label("requests for help");
            ev.nontrivial = true;
            if !o.ok() || !String::from_utf8_lossy(&o.stdout).contains("USAGE") {
                ev.fails.push(format!("[option] --help does not print help: {}", o.brief()));
            }
        }
        Meaning::Reject(w) => {
            label(w);
            ev.nontrivial = !scripts || has_script;
            if o.ok() {
                ev.fails.push(format!("[option] the link succeeds in spite of: {}", w));
            } else if o.stderr.trim().is_empty() {
                ev.fails.push(format!("[option] no diagnostic about: {}", w));
            }
        }
        Meaning::Link { case, out } => {
            label("command lines that mean a link");
            let path = env.dir.join(&out);
            let bytes = if o.ok() { std::fs::read(&path).ok() } else { None };
            let used = (0..cmd.case.libs.len()).filter(|l| case.inputs.contains(&Input::Lib(*l))).count();
            let m = resolve(&case);
            let ok = o.ok();
            let l = Linked { outcome: o, out: bytes, mode: mode(&path), lib_offs };
            let (fails, labels) = judge_outcome(&case, &m, &l);
            ev.nontrivial = case.inputs.len() >= 2 && (!scripts || has_script);
            if ok && new.iter().any(|n| **n != out) {
                ev.fails.push(format!("[files] the link also wrote {:?}", new));
            }
            for (k, v) in labels {
                *ev.labels.entry(k).or_insert(0) += v;
            }
            if fails.iter().any(|f| f.msg.contains(STICKY)) {
                ev.signatures.push(STICKY.into());
            }
            if used > 0 {
                *ev.labels.entry("links with shared libraries").or_insert(0) += 1;
            }
            ev.fails.extend(fails.into_iter().filter(|f| f.aspect == "link" || f.aspect == "parse" || aspects.contains(&f.aspect)).map(|f| format!("[{}] {}", f.aspect, f.msg)));
        }
    }
    ev
}

// ---------------------------------------------------------------- generating

fn decoy_obj(t: &mut Tape, o: usize, defs: Vec<String>) -> Obj {
    let mut data: Vec<u8> = (0..8).map(|i| gen::filler(t.raw(), i)).collect();
    data.extend(tag_bytes(o, 0));
    data.extend([0x90; 8]);
    let sec = Sec { name: ".data".into(), ty: PROGBITS, flags: A | W, align: 8, entsize: 0, size: data.len() as u64, data, tag: Some(8), rels: vec![] };
    let syms = defs.into_iter().map(|name| Sym { name, bind: GLOBAL, ty: T_OBJECT, vis: 0, place: Place::Sec(0, 0), size: 0 }).collect();
    Obj { secs: vec![sec], syms, ..Default::default() }
}

const DIRS: [&str; 5] = ["d0", "d1", "d2/sub", "d-3", "d4.x"];

struct Draft {
    cmd: Cmd,
    dirs: Vec<String>,
}

fn spell_dir(t: &mut Tape, d: &str) -> String {
    match t.below(8) {
        0 => format!("./{}", d),
        1 => format!("@@/{}", d),
        2 => format!("{}/", d),
        3 => d.replace('/', "//"),
        _ => d.into(),
    }
}

fn spell_file(t: &mut Tape, p: &str) -> String {
    match t.below(8) {
        0 => format!("./{}", p),
        1 => format!("@@/{}", p),
        2 => p.replace('/', "/./"),
        _ => p.into(),
    }
}

impl Draft {
    /// A way to name the file: (argument groups, whether it fits into a script)
    fn refer(&mut self, t: &mut Tape, path: &str, script: bool) -> Vec<String> {
        let (dir, base) = path.rsplit_once('/').unwrap_or(("", path));
        let stem = base.strip_prefix("lib").and_then(|b| b.strip_suffix(".so").or(b.strip_suffix(".a"))).filter(|s| !s.is_empty());
        let r = t.below(10);
        if let Some(n) = stem {
            if !dir.is_empty() && r >= 3 {
                self.dirs.push(dir.into());
                return if !script && t.chance(40) { vec!["-l".into(), n.into()] } else { vec![format!("-l{}", n)] };
            }
        }
        if !dir.is_empty() && r >= 6 {
            self.dirs.push(dir.into());
            return vec![base.into()];
        }
        let mut s = spell_file(t, path);
        if script && s.contains("@@") {
            s = path.into();
        }
        vec![s]
    }
}

fn blank(t: &mut Tape, any: bool) -> String {
    let mut s = String::new();
    for _ in 0..if any { t.below(3) } else { t.range(1, 3) } {
        s.push(*t.pick(&[' ', '\n', '\t', ' ', '\r']));
    }
    s
}

fn comment(t: &mut Tape) -> String {
    t.pick(&["/* GNU ld script */", "/**/", "/***/", "/* a\n * b\n */", "/* GROUP ( nothing.o ) */", "/* / * */", "/*/*/", "/* ** **/", "/*\t'\"(;*/"]).to_string()
}

/// The text of a script with these inputs (name, under AS_NEEDED).
fn script_text(t: &mut Tape, names: &[(String, bool)]) -> String {
    let mut s = String::new();
    let glue = |t: &mut Tape, s: &mut String| {
        for _ in 0..t.below(3) {
            *s += &blank(t, true);
            if t.chance(40) {
                *s += &comment(t);
            }
        }
        *s += &blank(t, true);
    };
    glue(t, &mut s);
    if t.chance(40) {
        s += "OUTPUT_FORMAT";
        s += &blank(t, true);
        s += "(";
        s += &blank(t, true);
        s += t.pick(&["elf64-x86-64", "x", "elf64_x86.64"]);
        s += &blank(t, true);
        s += ")";
        glue(t, &mut s);
    }
    let mut i = 0;
    let mut rounds = 0;
    loop {
        if i >= names.len() && !(s.is_empty() || t.chance(10)) {
            break;
        }
        rounds += 1;
        let n = if rounds > 3 || !t.chance(30) { names.len() - i } else { t.below(names.len() - i + 1) };
        let part = &names[i..i + n];
        i += n;
        s += "GROUP";
        s += &blank(t, true);
        s += "(";
        s += &blank(t, true);
        let mut k = 0;
        while k < part.len() {
            if part[k].1 {
                s += "AS_NEEDED";
                s += &blank(t, true);
                s += "(";
                s += &blank(t, true);
                while k < part.len() && part[k].1 {
                    s += &part[k].0;
                    s += &blank(t, k + 1 >= part.len() || !part[k + 1].1);
                    k += 1;
                    if t.chance(20) {
                        break;
                    }
                }
                s += ")";
                s += &blank(t, true);
            } else {
                s += &part[k].0;
                let last = k + 1 >= part.len();
                s += &blank(t, last);
                k += 1;
            }
        }
        s += ")";
        glue(t, &mut s);
        if i >= names.len() {
            break;
        }
    }
    s
}

pub fn gen(t: &mut Tape, scripts: bool) -> Cmd {
    let p = Profile { objs: (1, 3), secs: (1, 3), slots: (0, 3), names: (1, 6), archives: 45, libs: 60, as_needed: 30, high_align: 3, big: 0, init: 3, mess: 10, import_data: 30, hash_names: 3, ..Profile::default() };
    let base = gen::gen(t, &p);
    let inputs = base.inputs.clone();
    let mut d = Draft { cmd: Cmd { case: base, files: Default::default(), argv: vec![] }, dirs: vec![] };
    // places
    let mut path_of: BTreeMap<String, String> = BTreeMap::new();
    for i in &inputs {
        let (key, ent, mut base) = match i {
            Input::Obj(o) => (format!("o{}", o), Ent::Obj(*o), Case::obj_file(*o)),
            Input::Ar(a) => (format!("a{}", a), Ent::Ar(*a), Case::ar_file(*a)),
            Input::Lib(l) => (format!("l{}", l), Ent::Lib(*l), Case::lib_file(*l)),
            _ => continue,
        };
        match t.below(12) {
            8 if key.starts_with('a') || key.starts_with('l') => base = format!("lib{}-x.y{}", key, &base[base.len() - if key.starts_with('a') { 2 } else { 3 }..]),
            9 => base = format!("{}{}", t.pick(&["", "lib", "++", "x~"]), key) + t.pick(&[".bin", "++.so", "~", "+1.a"]),
            10 => base = format!("AS_NEEDED_{}.o", key),
            11 if !key.starts_with('l') => base = format!("lib{}.so", key),
            // what may be an argument as well
            7 if t.chance(50) => base = t.pick(&["face", "0", "ab", "0x1f", "sha1", "uuid", "12", "deadbeef", "gnu", "elf_x86_64", "f00", "now"]).to_string(),
            6 if t.chance(60) => base = if key.starts_with('o') { "same.o" } else if key.starts_with('a') { "libsame.a" } else { "libsame.so" }.to_string(),
            _ => {}
        }
        let dir = if t.chance(70) { *t.pick(&DIRS) } else { "" };
        let path = if dir.is_empty() { base.clone() } else { format!("{}/{}", dir, base) };
        if d.cmd.files.contains_key(&path) {
            continue;
        }
        path_of.insert(key, path.clone());
        d.cmd.files.insert(path.clone(), ent.clone());
        // another file of that name, or of that library name, elsewhere
        for _ in 0..2 {
            if !t.chance(25) {
                continue;
            }
            let other = *t.pick(&DIRS);
            let mut b = base.clone();
            if t.chance(30) {
                b = if let Some(s) = b.strip_suffix(".so") { format!("{}.a", s) } else if let Some(s) = b.strip_suffix(".a") { format!("{}.so", s) } else { b };
            }
            let p = if t.chance(15) { b } else { format!("{}/{}", other, b) };
            if d.cmd.files.contains_key(&p) {
                continue;
            }
            let e = match t.below(4) {
                0 => Ent::Dir,
                1 => {
                    let mut l = d.cmd.case.libs.first().cloned().unwrap_or(Lib { soname: None, file: None, exports: vec![], undefs: vec![], locals: vec![], bare: false, dotted: false });
                    l.soname = Some(format!("decoy{}.so", d.cmd.case.libs.len()));
                    if t.chance(50) {
                        l.exports.clear();
                    }
                    d.cmd.case.libs.push(l);
                    Ent::Lib(d.cmd.case.libs.len() - 1)
                }
                k => {
                    let defs = if t.chance(50) { vec![format!("decoy{}", d.cmd.case.objs.len())] } else { d.cmd.case.objs.iter().flat_map(|o| o.syms.iter()).filter(|s| s.bind == GLOBAL && s.place == Place::Undef && !s.name.starts_with("_")).map(|s| s.name.clone()).take(1).collect() };
                    let n = d.cmd.case.objs.len();
                    let o = decoy_obj(t, n, defs);
                    d.cmd.case.objs.push(o);
                    if k == 2 {
                        Ent::Obj(n)
                    } else {
                        d.cmd.case.archives.push(Archive { members: vec![(format!("decoy{}.o", n), n)], bsd: 0 });
                        Ent::Ar(d.cmd.case.archives.len() - 1)
                    }
                }
            };
            d.cmd.files.insert(p, e);
        }
    }
    // the inputs, some of them through scripts
    let mut items: Vec<(Option<String>, bool)> = vec![]; // path or as-needed switch
    for i in &inputs {
        match i {
            Input::AsNeeded(b) => items.push((None, *b)),
            Input::Obj(o) => items.push((path_of.get(&format!("o{}", o)).cloned(), false)),
            Input::Ar(a) => items.push((path_of.get(&format!("a{}", a)).cloned(), false)),
            Input::Lib(l) => items.push((path_of.get(&format!("l{}", l)).cloned(), false)),
            _ => {}
        }
    }
    let wraps = if scripts { t.range(1, 3) } else { t.chance(15) as usize };
    for w in 0..wraps {
        let a = t.below(items.len() + 1);
        let b = t.range(a, items.len());
        let mut names = vec![];
        let mut need = false;
        for (p, sw) in &items[a..b] {
            match p {
                None => need = *sw,
                Some(p) => {
                    let n = d.refer(t, p, true);
                    names.push((n[0].clone(), need || t.chance(15)));
                }
            }
        }
        let text = script_text(t, &names);
        let base = match t.below(4) {
            0 => format!("s{}.ld", w),
            1 => format!("libs{}.so", w),
            2 => format!("libs{}.a", w),
            _ => format!("script{}", w),
        };
        let path = if t.chance(60) { format!("{}/{}", t.pick(&DIRS), base) } else { base };
        d.cmd.files.insert(path.clone(), Ent::Script(text.into_bytes()));
        items.splice(a..b, [(Some(path), false)]);
    }
    if wraps > 0 && t.rare(150) {
        // a ring of scripts, perhaps with others on the way
        let keys: Vec<String> = d.cmd.files.iter().filter(|f| matches!(f.1, Ent::Script(_))).map(|f| f.0.clone()).collect();
        let (from, to) = (t.pick(&keys).clone(), t.pick(&keys).clone());
        d.cmd.files.insert("nothing.ld".into(), Ent::Script(b"GROUP ( )".to_vec()));
        let more = format!(" GROUP ( {}{} )", t.pick(&["", "nothing.ld ", "nothing.ld nothing.ld "]), to);
        if let Some(Ent::Script(b)) = d.cmd.files.get_mut(&from) {
            b.extend(more.bytes());
        }
    }
    let mut groups: Vec<Vec<String>> = vec![];
    for (p, sw) in &items {
        match p {
            Some(p) => groups.push(d.refer(t, p, false)),
            None => groups.push(vec![if *sw { "--as-needed" } else { "--no-as-needed" }.into()]),
        }
        if t.chance(4) {
            // once more
            let g = groups.last().unwrap().clone();
            groups.push(g);
        }
    }
    // directories: those in use and others
    let mut dirs = std::mem::take(&mut d.dirs);
    dirs.dedup();
    for x in DIRS {
        if t.chance(20) {
            dirs.push(x.into());
        }
    }
    if t.chance(15) {
        dirs.push("no/such/dir".into());
    }
    t.shuffle(&mut dirs);
    for x in dirs {
        let x = spell_dir(t, &x);
        let g = if t.chance(50) { vec!["-L".into(), x] } else { vec![format!("-L{}", x)] };
        let at = t.below(groups.len() + 1);
        groups.insert(at, g);
    }
    // everything else
    let mut extra: Vec<Vec<String>> = vec![];
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
    let out = *t.pick(&["out", "a.out", "d0/prog", "x.o", "./y", "@@/z", "no/such/out"]);
    let out = if out.starts_with("no/") && !t.chance(30) || out.starts_with("d0/") && !all_dirs(&d.cmd).contains("d0") { "out" } else { out };
    extra.push(s(&["-o", out]));
    for _ in 0..t.below(5) {
        let g = match t.below(14) {
            0 => s(&["-m", "elf_x86_64"]),
            1 => s(&["-z", t.pick(&["now", "relro", "noexecstack", "max-page-size=4096"])]),
            2 => s(&["--eh-frame-hdr"]),
            3 => s(&["--build-id", t.pick(&["sha1", "md5", "uuid", "0xabcdef", "0x1", "0x012345678901234567890123456789012345678"])]),
            4 => s(&["--build-id"]),
            5 => s(&["--hash-style", t.pick(&["gnu", "sysv", "both"])]),
            6 => s(&[t.pick(&["--hash-style=gnu", "--hash-style=sysv", "--hash-style=both"])]),
            7 => s(&["-dynamic-linker", t.pick(&["/lib64/ld-linux-x86-64.so.2", "/i", "/some/where/ld.so.1"])]),
            8 => s(&["--start-group"]),
            9 => s(&["--end-group"]),
            10 => s(&["-o", "first-out"]),
            11 => s(&["-L", "d0"]),
            12 if t.chance(20) => s(&[t.pick(&["--help", "-h"])]),
            _ => s(&["--eh-frame-hdr"]),
        };
        extra.push(g);
    }
    for g in extra {
        let at = t.below(groups.len() + 1);
        groups.insert(at, g);
    }
    if t.chance(if scripts { 5 } else { 35 }) {
        mutate_args(t, &mut groups, &d.cmd);
    }
    d.cmd.argv = groups.into_iter().flatten().collect();
    if !scripts && t.chance(4) {
        // the last option misses its argument
        d.cmd.argv.push(t.pick(&["-o", "-L", "-l", "-m", "-z", "-dynamic-linker", "--hash-style"]).to_string());
    }
    if scripts && t.chance(40) {
        mutate_script(t, &mut d.cmd);
    }
    d.cmd
}

fn mutate_args(t: &mut Tape, groups: &mut Vec<Vec<String>>, cmd: &Cmd) {
    for _ in 0..t.range(1, 2) {
        if groups.is_empty() {
            return;
        }
        let at = t.below(groups.len());
        match t.below(9) {
            0 => {
                groups.remove(at);
            }
            1 => {
                let g = groups[at].clone();
                let to = t.below(groups.len() + 1);
                groups.insert(to, g);
            }
            2 => {
                let to = t.below(groups.len());
                groups.swap(at, to);
            }
            3 => {
                // half of a pair, or a letter less
                let g = &mut groups[at];
                if g.len() > 1 {
                    g.pop();
                } else if !g[0].is_empty() && !g[0].starts_with('-') {
                    g[0].pop();
                }
            }
            4 => groups.insert(at, vec![t.pick(NONSENSE).to_string()]),
            5 => groups.insert(at, vec![t.pick(&["-m", "--hash-style", "-z"]).to_string(), t.pick(&["elf_i386", "fast", "sysv,gnu", "GNU", "elf_x86_64", "gnu"]).to_string()]),
            6 => groups.insert(at, vec![t.pick(&["-lnone", "none.o", "d0", "-lso0", "-lar0", "o0.o", "libso0", "so0", "--hash-style=", "--hash-style=x", ""]).to_string()]),
            7 => {
                let v: Vec<&String> = cmd.files.keys().collect();
                groups.insert(at, vec![t.pick(&v).to_string()]);
            }
            _ => {
                let d = t.pick(&DIRS).to_string();
                groups.insert(0, vec![format!("-L{}", d)]);
            }
        }
    }
}

fn mutate_script(t: &mut Tape, cmd: &mut Cmd) {
    let keys: Vec<String> = cmd.files.iter().filter(|f| matches!(f.1, Ent::Script(_))).map(|f| f.0.clone()).collect();
    if keys.is_empty() {
        return;
    }
    let key = t.pick(&keys).clone();
    let all: Vec<String> = cmd.files.keys().cloned().collect();
    let Some(Ent::Script(b)) = cmd.files.get_mut(&key) else { return };
    for _ in 0..t.range(1, 3) {
        let at = t.below(b.len() + 1);
        match t.below(8) {
            0 if at < b.len() => {
                b.remove(at);
            }
            1 => b.insert(at, *t.pick(b" \n()/*-A_G.,\";{}=+~")),
            2 if at < b.len() => b[at] = *t.pick(b" ()/*-A_Gg.\n"),
            3 => {
                let w = t.pick(&["GROUP", "(", ")", "AS_NEEDED", "AS_NEEDED(", "/*", "*/", "OUTPUT_FORMAT(x)", "GROUP()", "INPUT(x.o)", "/* c */", "OUTPUT_FORMAT()", " none.o ", "-lnone"]).bytes();
                let v: Vec<u8> = w.collect();
                b.splice(at..at, v);
            }
            4 => b.truncate(at),
            5 => {
                let n = format!(" {} ", t.pick(&all));
                b.splice(at..at, n.into_bytes());
            }
            6 if t.chance(40) => b.insert(at, *t.pick(&[0xff, 0xc3, 0x80])),
            _ => {
                // a piece moves
                let z = t.range(at, b.len());
                let piece: Vec<u8> = b.drain(at..z).collect();
                let to = t.below(b.len() + 1);
                b.splice(to..to, piece);
            }
        }
    }
}

// ---------------------------------------------------------------- shrinking and printing

pub fn smaller(cmd: &Cmd) -> Vec<Cmd> {
    let mut v = vec![];
    for i in 0..cmd.argv.len() {
        let mut c = cmd.clone();
        c.argv.remove(i);
        v.push(c);
        if i + 1 < cmd.argv.len() {
            let mut c = cmd.clone();
            c.argv.drain(i..i + 2);
            v.push(c);
        }
    }
    for k in cmd.files.keys() {
        let mut c = cmd.clone();
        c.files.remove(k);
        v.push(c);
    }
    for (k, e) in &cmd.files {
        if let Ent::Script(b) = e {
            for w in [16, 4, 1] {
                let mut i = 0;
                while i < b.len() {
                    let mut c = cmd.clone();
                    let mut b = b.clone();
                    let z = (i + w).min(b.len());
                    b.drain(i..z);
                    c.files.insert(k.clone(), Ent::Script(b));
                    v.push(c);
                    i += w;
                }
            }
        }
    }
    v
}

pub fn sample(cmd: &Cmd) -> Value {
    let what = match interpret(cmd) {
        Meaning::Link { case, out } => format!("links {:?} into {}", case.inputs, out),
        Meaning::Reject(w) => format!("must fail: {}", w),
        Meaning::Help => "prints help".into(),
        Meaning::Open(w) => format!("open: {}", w),
    };
    json!({"command": cmd.argv.join(" "), "files": cmd.files.iter().map(|(p, e)| match e {
        Ent::Script(b) => format!("{}: {}", p, String::from_utf8_lossy(b)),
        e => format!("{}: {:?}", p, e),
    }).collect::<Vec<_>>(), "meaning": what})
}
