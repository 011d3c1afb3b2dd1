//! What a link leaves alone: every file but its output, whatever the output path is or stands for.
use crate::case::*;
use crate::gen::{self, Profile};
use crate::model::*;
use crate::props::*;
use crate::run::*;
use crate::tape::Tape;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::fs::{FileTypeExt, MetadataExt, PermissionsExt};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Thing {
    File { name: String, len: u32, mode: u32 },
    Dir(String),
    /// a symbolic link
    Link { name: String, to: String },
    /// a second name of a file
    Name { name: String, of: String },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Must {
    /// as the inputs say
    Normal,
    /// fail, as the output would replace an input
    Refuse,
    /// fail, as there cannot be such a file
    Fail,
    /// succeed, without there being a file to look at
    Device,
    /// nothing in particular
    Any,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Touch {
    pub case: Case,
    /// what is there besides the inputs
    pub things: Vec<Thing>,
    /// the output path; none: the default
    pub out: Option<String>,
    /// where `-o` comes
    pub last: bool,
    /// the input that is named by a linker script instead
    pub script: Option<String>,
    /// how many scripts lead there
    #[serde(default)]
    pub depth: usize,
    /// libraries and archives are searched for (in this directory, by this name)
    #[serde(default)]
    pub search: Option<String>,
    pub must: Must,
    pub what: String,
}

fn normalised(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for x in p.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}

/// Another way to write the path of a file in this directory.
fn spelling(t: &mut Tape, name: &str) -> String {
    match t.below(6) {
        0 | 1 => name.to_string(),
        2 => format!("./{}", name),
        3 => format!("sub/../{}", name),
        4 => format!("sub/here/{}", name),
        _ => format!(".//sub/./../{}", name),
    }
}

fn script_file(i: usize) -> String {
    format!("in{}.ld", i)
}

pub fn gen(t: &mut Tape) -> Touch {
    let first: Vec<u32> = (0..40).map(|_| t.raw()).collect();
    let u = &mut Tape::new(&first);
    let p = Profile { objs: (1, 3), secs: (1, 4), names: (1, 6), slots: (0, 3), archives: 45, libs: 40, ..Default::default() };
    let mut c = gen::gen(t, &p);
    if u.chance(15) {
        let o = u.below(c.objs.len());
        c.objs[o].syms.push(Sym { name: "nowhere".into(), bind: GLOBAL, ty: 0, vis: 0, place: Place::Undef, size: 0 });
    }
    let mut things = vec![Thing::Dir("sub".into()), Thing::Link { name: "sub/here".into(), to: "..".into() }];
    for n in ["out.o", "out.tmp", "out~", ".out", "out.map", "a.out.tmp", "tmp", "core", "sub/out.o", "-", "ou", "outx", "a.out", ".out.swp", "out.dwo"] {
        if u.chance(12) {
            things.push(Thing::File { name: n.into(), len: u.below(5000) as u32, mode: *u.pick(&[0o644, 0o755, 0o444, 0o600]) });
        }
    }
    let mut files: Vec<String> = c.inputs.iter().filter_map(|i| match i {
        Input::Obj(o) => Some(Case::obj_file(*o)),
        Input::Ar(a) => Some(Case::ar_file(*a)),
        Input::Lib(l) => Some(Case::lib_file(*l)),
        _ => None,
    }).collect();
    let mut script = None;
    let depth = 1 + u.below(3);
    if u.chance(25) {
        let f = files[u.below(files.len())].clone();
        // (one that is given once)
        if files.iter().filter(|x| **x == f).count() == 1 {
            script = Some(f);
            // (twice: these are not as many as the others)
            for _ in 0..2 {
                files.extend((0..depth).map(script_file));
            }
        }
    }
    let mode = *u.pick(&[0o644u32, 0o755, 0o444, 0o600, 0o777]);
    let before = |u: &mut Tape, things: &mut Vec<Thing>, name: &str| {
        if u.chance(50) {
            things.push(Thing::File { name: name.into(), len: u.below(60_000) as u32, mode });
        }
    };
    let (what, out, must) = match u.below(20) {
        0 => {
            before(u, &mut things, "out");
            ("default", None, Must::Normal)
        }
        1 => {
            before(u, &mut things, "out");
            ("plain", Some(spelling(u, "out")), Must::Normal)
        }
        2 => {
            before(u, &mut things, "sub/out");
            ("elsewhere", Some("sub/out".to_string()), Must::Normal)
        }
        3 => {
            let n = u.pick(&["-out", "out put", "o\"ut", "öut", "@out", "out%s", "a=b", "--", "-h"]).to_string();
            before(u, &mut things, &n);
            ("name", Some(n), Must::Normal)
        }
        4 => ("no directory", Some(u.pick(&["nodir/out", "sub/nodir/out", "out/"]).to_string()), Must::Fail),
        5 if u.chance(40) => {
            things.push(Thing::Link { name: "out".into(), to: u.pick(&["sub", ".", "sub/here/sub"]).to_string() });
            match u.below(2) {
                0 => ("directory", Some(u.pick(&["out/", "./out/", "out/."]).to_string()), Must::Fail),
                _ => ("link to directory", Some(u.pick(&["out", "./out"]).to_string()), Must::Any),
            }
        }
        5 => ("directory", Some(u.pick(&["sub", ".", "sub/..", "sub/", "./sub/here/sub"]).to_string()), Must::Fail),
        6 => {
            things.push(Thing::File { name: "plain".into(), len: u.below(3000) as u32, mode });
            ("below a file", Some("plain/out".to_string()), Must::Fail)
        }
        7 => {
            // nothing behind it
            things.push(Thing::Link { name: "out".into(), to: u.pick(&["nothing", "nodir/nothing", "sub/new", "out"]).to_string() });
            ("link to nothing", Some(spelling(u, "out")), Must::Any)
        }
        8 | 9 => {
            let f = files[u.below(files.len())].clone();
            things.push(Thing::Link { name: "out".into(), to: spelling(u, &f) });
            ("link to input", Some(spelling(u, "out")), Must::Any)
        }
        10 => {
            things.push(Thing::File { name: "sub/old".into(), len: u.below(60_000) as u32, mode });
            things.push(Thing::Link { name: "out".into(), to: "sub/old".into() });
            ("link to another file", Some(spelling(u, "out")), Must::Any)
        }
        11 | 12 => {
            let f = files[u.below(files.len())].clone();
            things.push(Thing::Name { name: "out".into(), of: f });
            ("second name of input", Some(spelling(u, "out")), Must::Any)
        }
        13 => {
            things.push(Thing::File { name: "sub/old".into(), len: u.below(60_000) as u32, mode });
            things.push(Thing::Name { name: "out".into(), of: "sub/old".into() });
            ("second name of another file", Some(spelling(u, "out")), Must::Any)
        }
        14 => ("device", Some("/dev/null".to_string()), Must::Device),
        15 => {
            things.push(Thing::Link { name: "out".into(), to: "/dev/null".into() });
            ("link to device", Some("out".to_string()), Must::Any)
        }
        _ => {
            let f = files[u.below(files.len())].clone();
            ("input", Some(spelling(u, &f)), Must::Refuse)
        }
    };
    let search = if u.chance(20) { Some(u.pick(&[".", "sub/..", "./sub/here"]).to_string()) } else { None };
    Touch { case: c, things, out, last: u.chance(50), script, depth, search, must, what: what.into() }
}

pub fn args(x: &Touch) -> Vec<String> {
    let mut v = x.case.args();
    v.drain(..2);
    let o: Vec<String> = x.out.iter().flat_map(|o| vec!["-o".to_string(), o.clone()]).collect();
    if let Some(s) = &x.script {
        for a in v.iter_mut().filter(|a| normalised(a) == *s) {
            *a = script_file(0);
        }
    }
    if let Some(d) = &x.search {
        for a in v.iter_mut() {
            let name = a.strip_prefix("lib").and_then(|n| n.strip_suffix(".so").or_else(|| n.strip_suffix(".a")));
            if let Some(n) = name {
                *a = format!("-l{}", n);
            }
        }
        v.insert(0, format!("-L{}", d));
    }
    let at = if x.last { v.len() } else { 0 };
    v.splice(at..at, o);
    v
}

pub fn write(x: &Touch, dir: &Path) {
    write_inputs(&x.case, dir);
    if let Some(s) = &x.script {
        for i in 0..x.depth.max(1) {
            let next = if i + 1 < x.depth { script_file(i + 1) } else { s.clone() };
            put(&dir.join(script_file(i)), format!("GROUP ( {} )\n", next).as_bytes());
        }
    }
    let bytes = |n: u32| (0..n).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect::<Vec<u8>>();
    for t in &x.things {
        match t {
            Thing::File { name, len, mode } => {
                let p = dir.join(name);
                put(&p, &bytes(*len));
                std::fs::set_permissions(&p, PermissionsExt::from_mode(*mode)).ok();
                give(&p);
            }
            Thing::Dir(n) => {
                std::fs::create_dir(dir.join(n)).ok();
                give(&dir.join(n));
            }
            Thing::Link { name, to } => {
                let _ = std::os::unix::fs::symlink(to, dir.join(name));
            }
            Thing::Name { name, of } => {
                let _ = std::fs::hard_link(dir.join(of), dir.join(name));
            }
        }
    }
    for n in std::fs::read_dir(dir).unwrap().flatten() {
        if !n.path().is_symlink() {
            give(&n.path());
        }
    }
}

/// Everything below a directory: kind, mode, time of the last change, contents.
fn snapshot(dir: &Path) -> BTreeMap<String, (String, Vec<u8>)> {
    fn go(d: &Path, at: &str, out: &mut BTreeMap<String, (String, Vec<u8>)>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{}{}", at, e.file_name().to_string_lossy());
            let Ok(m) = e.path().symlink_metadata() else { continue };
            let kind = if m.is_dir() { "directory" } else if m.is_symlink() { "link" } else if m.file_type().is_fifo() { "fifo" } else { "file" };
            let body = match kind {
                "file" => std::fs::read(e.path()).unwrap_or_default(),
                "link" => std::fs::read_link(e.path()).unwrap_or_default().to_string_lossy().into_owned().into_bytes(),
                _ => vec![],
            };
            // what is in a directory has entries of its own
            let time = if kind == "directory" { 0 } else { m.mtime() * 1_000_000_000 + m.mtime_nsec() };
            out.insert(n.clone(), (format!("{} of mode {:o}, owner {}, changed {}", kind, m.mode(), m.uid(), time), body));
            if m.is_dir() {
                go(&e.path(), &(n + "/"), out);
            }
        }
    }
    let mut v = BTreeMap::new();
    go(dir, "", &mut v);
    v
}

pub fn eval(x: &Touch, env: &Env) -> Eval {
    let mut ev = Eval::default();
    let m = resolve(&x.case);
    let valid = m.dup.is_empty() && m.undef.is_empty();
    // the same link to where nothing else is
    clean(&env.dir);
    let plain = Touch { out: Some("out".into()), things: x.things[..2].to_vec(), ..x.clone() };
    write(&plain, &env.dir);
    let o = run(&env.dld, &args(&plain), &env.dir, &Limits::default(), &[]);
    let reference = if o.ok() { std::fs::read(env.dir.join("out")).ok() } else { None };
    if valid && reference.is_none() {
        ev.fails.push(format!("[rejected] a valid link fails: {}", o.brief()));
        return ev;
    }

    clean(&env.dir);
    write(x, &env.dir);
    let null = std::fs::symlink_metadata("/dev/null").map(|m| (m.file_type().is_char_device(), m.rdev(), m.mode(), m.ino())).ok();
    let before = snapshot(&env.dir);
    let tmp = env.dir.to_str().unwrap().to_string() + "/sub";
    let o = run(&env.dld, &args(x), &env.dir, &Limits::default(), &[("TMPDIR", &tmp), ("HOME", &tmp), ("PATH", "/bin:/usr/bin")]);
    let after = snapshot(&env.dir);
    let label: &'static str = WHAT.iter().find(|w| **w == x.what).copied().unwrap_or("others");
    *ev.labels.entry(label).or_insert(0) += 1;
    if let Some(s) = o.signal {
        ev.fails.push(format!("[signal] the linker ends with signal {}: {}", s, o.brief()));
        return ev;
    }
    let out = x.out.clone().unwrap_or_else(|| "out".into());
    let mut mine = normalised(&out.replace("sub/here/", ""));
    if [Must::Refuse, Must::Fail, Must::Device].contains(&x.must) {
        mine = String::new();
    }
    for (n, v) in &before {
        if *n != mine && after.get(n) != Some(v) {
            let how = match after.get(n) {
                None => "is gone".to_string(),
                Some(w) if w.0 != v.0 => format!("is a {} (was {})", w.0, v.0),
                Some(_) => "has other contents".to_string(),
            };
            ev.fails.push(format!("[touched] with output {:?} ({}), {} {}: {}", out, x.what, n, how, o.brief()));
        }
    }
    for n in after.keys().filter(|n| !before.contains_key(*n) && **n != mine) {
        // a link to nothing may come to lead somewhere
        if x.what == "link to nothing" && ["nothing", "sub/new"].contains(&&n[..]) {
            continue;
        }
        ev.fails.push(format!("[touched] with output {:?} ({}), there is a new {}: {}", out, x.what, n, o.brief()));
    }
    if std::fs::symlink_metadata("/dev/null").map(|m| (m.file_type().is_char_device(), m.rdev(), m.mode(), m.ino())).ok() != null {
        ev.fails.push("[touched] /dev/null is no longer what it was".into());
    }
    match x.must {
        Must::Refuse | Must::Fail if o.ok() => ev.fails.push(format!("[accepted] the link succeeds although its output {:?} is {}", out, x.what)),
        Must::Normal | Must::Device if !o.ok() && valid && reference.is_some() => ev.fails.push(format!("[rejected] with output {:?} ({}), a valid link fails: {}", out, x.what, o.brief())),
        _ => {}
    }
    if o.ok() && !ev.fails.iter().any(|f| f.starts_with("[accepted")) {
        if !valid {
            ev.fails.push("[accepted] a link that has to fail succeeds".into());
        } else if x.must == Must::Normal || x.must == Must::Any && mine_is_file(&env.dir, &mine) {
            let b = std::fs::read(env.dir.join(&mine)).ok();
            if b.is_none() || b != reference {
                ev.fails.push(format!("[output] with output {:?} ({}), what is written differs from what is written to `out`", out, x.what));
            }
        }
    }
    ev.nontrivial = before.len() > 4 && reference.is_some();
    ev
}

fn mine_is_file(dir: &Path, n: &str) -> bool {
    dir.join(n).metadata().map_or(false, |m| m.is_file())
}

const WHAT: &[&str] = &["default", "plain", "elsewhere", "name", "no directory", "directory", "below a file", "link to nothing", "link to input", "link to another file", "second name of input", "second name of another file", "device", "link to device", "link to directory", "input"];

pub fn smaller(x: &Touch) -> Vec<Touch> {
    let mut v = vec![];
    for i in (2..x.things.len()).rev() {
        let mut y = x.clone();
        y.things.remove(i);
        v.push(y);
    }
    v
}
