//! The properties: generator, oracle, effort and wording of each.
use crate::case::*;
use crate::gen::{self, Profile};
use crate::model::*;
use crate::run::*;
use crate::tape::Tape;
use crate::verify::{self, Fail, Labels};
use crate::write;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub struct Env {
    pub dld: PathBuf,
    pub dir: PathBuf,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    Link(Case),
    Cmd(crate::cmd::Cmd),
    Fault(crate::fault::Fault),
    Damage(crate::damage::Damage),
    Range(crate::range::Range),
    Prog(crate::prog::Prog),
    Touch(crate::touch::Touch),
}

#[derive(Default, Debug)]
pub struct Eval {
    pub fails: Vec<String>,
    /// exact identities of what failed, for the known-findings file
    pub signatures: Vec<String>,
    pub labels: Labels,
    pub nontrivial: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub tape: usize,
    pub shrink: u32,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub generate: Box<dyn Fn(&[u32]) -> Job + Sync + Send>,
    pub evaluate: Box<dyn Fn(&Job, &Env) -> Eval + Sync + Send>,
}

// ---------------------------------------------------------------- linking one case

pub struct Linked {
    pub outcome: Outcome,
    pub out: Option<Vec<u8>>,
    pub mode: Option<u32>,
    pub lib_offs: Vec<Vec<u64>>,
}

/// Writes the input files; returns the export offsets of the libraries.
pub fn write_inputs(c: &Case, dir: &Path) -> Vec<Vec<u64>> {
    let bytes: Vec<Vec<u8>> = c.objs.iter().map(write::object).collect();
    let members: Vec<usize> = c.archives.iter().flat_map(|a| a.members.iter().map(|m| m.1)).collect();
    for (i, b) in bytes.iter().enumerate() {
        if !members.contains(&i) {
            put(&dir.join(Case::obj_file(i)), b);
        }
    }
    for (i, a) in c.archives.iter().enumerate() {
        put(&dir.join(Case::ar_file(i)), &write::archive(a, &c.objs, &bytes));
    }
    let mut offs = vec![];
    for (i, l) in c.libs.iter().enumerate() {
        let (b, o) = write::shared(i, l);
        put(&dir.join(Case::lib_file(i)), &b);
        offs.push(o);
    }
    offs
}

pub fn link(c: &Case, env: &Env) -> Linked {
    clean(&env.dir);
    let lib_offs = write_inputs(c, &env.dir);
    let lim = Limits { umask: c.umask.unwrap_or(0o022), ..Default::default() };
    let outcome = run(&env.dld, &c.args(), &env.dir, &lim, &[]);
    let p = env.dir.join("out");
    let out = if outcome.ok() { std::fs::read(&p).ok() } else { None };
    Linked { outcome, mode: mode(&p), out, lib_offs }
}

/// Nothing executable may be at the output path after a failure.
pub fn leftover(env: &Env) -> Option<String> {
    let p = env.dir.join("out");
    match mode(&p) {
        Some(m) if m & 0o111 != 0 => Some(format!("the failed link left an executable file (mode {:o})", m)),
        _ => None,
    }
}

/// Links a case and judges everything about the result.
pub fn judge(c: &Case, env: &Env) -> (Model, Vec<Fail>, Labels) {
    let m = resolve(c);
    let l = link(c, env);
    let (mut fails, labels) = judge_outcome(c, &m, &l);
    if l.outcome.signal.is_none() && !l.outcome.ok() {
        if let Some(x) = leftover(env) {
            fails.push(Fail { aspect: "left", msg: x });
        }
    }
    (m, fails, labels)
}

/// The outcome of a link whose inputs were found, against the model.
pub fn judge_outcome(c: &Case, m: &Model, l: &Linked) -> (Vec<Fail>, Labels) {
    let mut fails = vec![];
    let mut labels = Labels::new();
    let mut fail = |a: &'static str, s: String| fails.push(Fail { aspect: a, msg: s });
    if let Some(s) = l.outcome.signal {
        fail("link", format!("the linker was killed by signal {}: {}", s, l.outcome.brief()));
        return (fails, labels);
    }
    let expect_failure = !m.dup.is_empty() || !m.undef.is_empty();
    if expect_failure {
        let a = if m.dup.is_empty() { "undef" } else { "dup" };
        *labels.entry(if m.dup.is_empty() { "links that must fail: unresolved" } else { "links that must fail: duplicate" }).or_insert(0) += 1;
        if l.outcome.ok() {
            fail(a, format!("the link succeeded despite duplicates {:?}, unresolved {:?}", m.dup, m.undef));
            return (fails, labels);
        }
        let text = &l.outcome.stderr;
        if m.dup.is_empty() {
            for n in &m.undef {
                if !mentions(text, n) {
                    fail("undef", format!("the diagnostic does not name unresolved `{}`: {}", n, text.trim()));
                }
            }
            for (n, r) in &m.names {
                if r.res != Res::Unresolved && mentions(text, n) {
                    fail("undef", format!("the diagnostic names `{}`, which is not unresolved: {}", n, text.trim()));
                }
            }
        } else if !m.dup.iter().any(|n| mentions(text, n)) {
            fail("dup", format!("the diagnostic names none of {:?}: {}", m.dup, text.trim()));
        }
        return (fails, labels);
    }
    if !l.outcome.ok() {
        if c.horde() {
            labels.insert("more sections than a file can have", 1);
            return (fails, labels);
        }
        if c.rainbow() && l.outcome.code == Some(1) && l.outcome.stderr.contains("too many") {
            labels.insert("more segments than the system loads", 1);
            return (fails, labels);
        }
        if c.vast() {
            // what refers to the other side of the zeros may not reach it
            labels.insert("gigabytes of zeros: no verdict", 1);
            return (fails, labels);
        }
        fail("link", format!("a valid link fails with {}", l.outcome.brief()));
        return (fails, labels);
    }
    let Some(out) = l.out.clone() else {
        fail("link", "the linker succeeded without writing the output".into());
        return (fails, labels);
    };
    let (f, l) = verify::verify(c, m, out, l.mode, &l.lib_offs);
    fails.extend(f);
    labels.extend(l);
    (fails, labels)
}

/// `n` occurs in the text as a whole name
pub fn mentions(text: &str, n: &str) -> bool {
    let word = |c: char| c.is_alphanumeric() || "_$.@~".contains(c);
    let mut from = 0;
    while let Some(i) = text[from..].find(n) {
        let (a, b) = (from + i, from + i + n.len());
        let before = text[..a].chars().next_back();
        let after = text[b..].chars().next();
        if !before.map_or(false, word) && !after.map_or(false, word) {
            return true;
        }
        from = a + n.chars().next().map_or(1, |c| c.len_utf8());
    }
    false
}

fn link_prop(id: &'static str, quick: u64, aspects: &'static [&'static str], nontrivial: fn(&Case, &Labels) -> bool, rule: &'static str, profile: Profile, tweak: fn(&mut Tape, &mut Case)) -> Prop {
    Prop {
        id,
        quick,
        thorough: quick * 25,
        tape: 2500,
        shrink: 1500,
        rule,
        assumptions: vec![
            "inputs are written by the harness's own object, archive and library writers, and outputs read by its own reader",
            "the kernel's mapping and the dynamic loader are modelled (symbol lookup through the hash tables, relocation processing, eager and lazy binding)",
        ],
        generate: Box::new(move |tape| {
            let mut t = Tape::new(tape);
            let mut c = gen::gen(&mut t, &profile);
            tweak(&mut t, &mut c);
            Job::Link(c)
        }),
        evaluate: Box::new(move |job, env| {
            let Job::Link(c) = job else { crate::fatal("wrong kind of job") };
            let (_, fails, labels) = judge(c, env);
            let f: Vec<String> = fails.into_iter().filter(|f| f.aspect == "link" || f.aspect == "parse" || aspects.contains(&f.aspect)).map(|f| format!("[{}] {}", f.aspect, f.msg)).collect();
            let nt = nontrivial(c, &labels);
            Eval { fails: f, signatures: vec![], labels, nontrivial: nt }
        }),
    }
}

fn cmd_prop(id: &'static str, quick: u64, scripts: bool, aspects: &'static [&'static str], rule: &'static str) -> Prop {
    Prop {
        id,
        quick,
        thorough: quick * 25,
        tape: 1500,
        shrink: 1500,
        rule,
        assumptions: vec!["the reference interpreter says what a command line or script means; where the documentation is silent it expects nothing but an orderly end"],
        generate: Box::new(move |tape| Job::Cmd(crate::cmd::gen(&mut Tape::new(tape), scripts))),
        evaluate: Box::new(move |job, env| {
            let Job::Cmd(c) = job else { crate::fatal("wrong kind of job") };
            crate::cmd::eval(c, env, aspects, scripts)
        }),
    }
}

fn n(l: &Labels, k: &str) -> u64 {
    l.get(k).copied().unwrap_or(0)
}

fn same(_: &mut Tape, _: &mut Case) {}

/// The objects linked, with the names that have several definitions of any kind.
fn contested(c: &Case) -> usize {
    let m = resolve(c);
    let mut n: std::collections::BTreeMap<&str, usize> = Default::default();
    for o in &m.loaded {
        for s in &c.objs[*o].syms {
            if s.place != Place::Undef && s.ty != T_FILE {
                *n.entry(&s.name).or_insert(0) += 1;
            }
        }
    }
    n.values().filter(|v| **v > 1).count()
}

/// Adds further strong definitions of names that have one.
fn tweak_dup(t: &mut Tape, c: &mut Case) {
    if !t.chance(60) {
        return;
    }
    if t.chance(10) {
        // an object is named twice, and so are all its definitions
        let strong = |o: usize| c.objs[o].syms.iter().any(|s| s.bind == GLOBAL && matches!(s.place, Place::Sec(..) | Place::Abs(_)));
        let v: Vec<usize> = c.inputs.iter().filter_map(|i| if let Input::Obj(o) = i { Some(*o) } else { None }).filter(|o| strong(*o)).collect();
        if !v.is_empty() {
            let o = *t.pick(&v);
            let at = t.below(c.inputs.len() + 1);
            c.inputs.insert(at, Input::Obj(o));
            return;
        }
    }
    for _ in 0..t.range(1, 2) {
        let mut v: Vec<String> = vec!["_start".into()];
        for o in &c.objs {
            for s in &o.syms {
                if s.bind == GLOBAL && !matches!(s.place, Place::Undef | Place::Common(_) | Place::Large(_)) {
                    v.push(s.name.clone());
                }
            }
        }
        let n = t.pick(&v).clone();
        let o = t.below(c.objs.len());
        if let Some(s) = c.objs[o].syms.iter_mut().find(|s| s.name == n && s.bind != LOCAL) {
            // weak, common or merely referenced here: now defined as well
            if matches!(s.place, Place::Undef | Place::Common(_) | Place::Large(_)) {
                s.place = Place::Abs(0x1234);
            }
            s.bind = GLOBAL;
            continue;
        }
        let ty = *t.pick(&[T_NOTYPE, T_OBJECT, T_FUNC]);
        let at: Vec<usize> = (0..c.objs[o].secs.len()).filter(|s| c.objs[o].secs[*s].alloc()).collect();
        let place = if t.chance(20) || at.is_empty() { Place::Abs(t.below(0x1000) as u64) } else { Place::Sec(*t.pick(&at), 0) };
        c.objs[o].syms.push(Sym { name: n, bind: GLOBAL, ty, vis: *t.pick(&[0, 0, 2]), place, size: 0 });
    }
}

/// Further archive members define what a member defines already; the first one counts.
fn tweak_members(t: &mut Tape, c: &mut Case) {
    let members: Vec<usize> = c.archives.iter().flat_map(|a| a.members.iter().map(|m| m.1)).collect();
    if members.len() < 2 || !t.chance(50) {
        return;
    }
    for _ in 0..t.range(1, 3) {
        let o = *t.pick(&members);
        let names: Vec<String> = c.objs[o].syms.iter().filter(|s| s.bind == GLOBAL && matches!(s.place, Place::Sec(..) | Place::Abs(_))).map(|s| s.name.clone()).collect();
        if names.is_empty() {
            continue;
        }
        let n = t.pick(&names).clone();
        let o = *t.pick(&members);
        if c.objs[o].syms.iter().any(|s| s.name == n) {
            continue;
        }
        let at: Vec<usize> = (0..c.objs[o].secs.len()).filter(|s| c.objs[o].secs[*s].alloc()).collect();
        let place = if at.is_empty() { Place::Abs(t.below(0x1000) as u64) } else { Place::Sec(*t.pick(&at), 0) };
        c.objs[o].syms.push(Sym { name: n, bind: GLOBAL, ty: T_NOTYPE, vis: 0, place, size: 0 });
    }
}

/// Makes weak references strong, so that what nobody defines becomes an error.
fn tweak_undef(t: &mut Tape, c: &mut Case) {
    for o in &mut c.objs {
        for s in &mut o.syms {
            if s.place == Place::Undef && s.bind == WEAK && t.chance(30) {
                s.bind = GLOBAL;
            }
        }
    }
    if t.chance(4) {
        // a whole crowd is missing
        let o = t.below(c.objs.len());
        for i in 0..if t.chance(10) { t.range(100, 1000) } else { t.range(10, 60) } {
            let ty = if t.chance(30) { *t.pick(&[T_OBJECT, T_FUNC, 6]) } else { T_NOTYPE };
            c.objs[o].syms.push(Sym { name: format!("missing{}", i), bind: GLOBAL, ty, vis: 0, place: Place::Undef, size: 0 });
        }
    }
    if t.chance(3) {
        // names that look as if somebody else took care of them
        let o = t.below(c.objs.len());
        for _ in 0..t.range(1, 2) {
            let name = t.pick(&["__start_text", "__stop_table", "__start_", "__stop_x", "_DYNAMIC_", "_GLOBAL_OFFSET_TABLE", "__GLOBAL_OFFSET_TABLE_", "_start_", "__libc_start", "__imp_x", ".L0", "a@V1", "a@@V1", "$", "__init_array_begin", "__init_array_stop", "main", "_init", "__gmon_start__x"]).to_string();
            if c.objs.iter().all(|o| o.syms.iter().all(|s| s.name != name)) {
                let ty = if t.chance(50) { *t.pick(&[T_OBJECT, T_FUNC, 6, 10]) } else { T_NOTYPE };
                let vis = if t.chance(30) { t.below(4) as u8 } else { 0 };
                c.objs[o].syms.push(Sym { name, bind: GLOBAL, ty, vis, place: Place::Undef, size: 0 });
            }
        }
    }
    if t.chance(15) {
        // a definition disappears
        let o = t.below(c.objs.len());
        let v: Vec<usize> = (0..c.objs[o].syms.len()).filter(|k| c.objs[o].syms[*k].bind == GLOBAL && c.objs[o].syms[*k].name != "_start" && matches!(c.objs[o].syms[*k].place, Place::Sec(..))).collect();
        if !v.is_empty() {
            let k = *t.pick(&v);
            c.objs[o].syms[k].place = Place::Undef;
            c.objs[o].syms[k].size = 0;
            if !t.chance(20) {
                c.objs[o].syms[k].ty = T_NOTYPE;
            }
        }
    }
    if t.chance(15) && !c.libs.is_empty() {
        // a library no longer exports something
        let l = t.below(c.libs.len());
        if !c.libs[l].exports.is_empty() {
            let e = t.below(c.libs[l].exports.len());
            let e = c.libs[l].exports.remove(e);
            if t.chance(50) {
                c.libs[l].undefs.push(e.name);
            }
        }
    }
}

/// The same link several times over.
fn again(c: &Case, env: &Env) -> Eval {
    let mut ev = Eval::default();
    clean(&env.dir);
    write_inputs(c, &env.dir);
    let p = env.dir.join("out");
    let mut seen: Vec<(Option<i32>, Option<i32>, Option<Vec<u8>>)> = vec![];
    for i in 0..3 {
        if i == 2 {
            std::fs::remove_file(&p).ok();
        }
        let o = run(&env.dld, &c.args(), &env.dir, &Limits::default(), &[]);
        let b = if o.ok() { std::fs::read(&p).ok() } else { None };
        seen.push((o.code, o.signal, b));
    }
    for i in 1..3 {
        if (seen[i].0, seen[i].1) != (seen[0].0, seen[0].1) {
            ev.fails.push(format!("[same] the same link ends with {:?} and with {:?}", (seen[0].0, seen[0].1), (seen[i].0, seen[i].1)));
        } else if seen[i].2 != seen[0].2 {
            let (a, b) = (seen[0].2.clone().unwrap_or_default(), seen[i].2.clone().unwrap_or_default());
            let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            ev.fails.push(format!("[same] the same link writes different files ({} and {} bytes, first difference at {:#x})", a.len(), b.len(), at));
        }
    }
    let parts: usize = c.objs.iter().map(|o| o.secs.len() + o.syms.len()).sum();
    ev.nontrivial = seen[0].0 == Some(0) && parts >= 6;
    *ev.labels.entry(if seen[0].0 == Some(0) { "successful links repeated" } else { "failing links repeated" }).or_insert(0) += 1;
    ev
}


pub fn find(id: &str) -> Option<Prop> {
    let d = Profile::default;
    Some(match id {
        "L01" => link_prop(
            "L01",
            16000,
            &["ref"],
            |_, l| n(l, "section") + n(l, "local") + n(l, "own global") + n(l, "other object") + n(l, "absolute") >= 2,
            "random sets of objects with relocated fields of every supported type; non-trivial: at least two fields referring to sections, locals, globals or absolute symbols were compared",
            Profile { slots: (0, 8), libs: 10, sea: 6, ..d() },
            same,
        ),
        "L02" => link_prop(
            "L02",
            16000,
            &["content", "prot", "overlap", "order"],
            |_, l| n(l, "sections compared") >= 3,
            "random sets of sections over several objects; non-trivial: at least three loaded contributions were compared with the output",
            Profile { secs: (2, 9), slots: (0, 4), names: (1, 5), big: 8, same_name: 12, nobits: 15, twin: 10, swarm: 10, pile: 100, ..d() },
            same,
        ),
        "L03" => link_prop(
            "L03",
            16000,
            &["align"],
            |_, l| n(l, "sections aligned to more than 16") >= 1 && n(l, "sections compared") >= 2,
            "random sets of sections with alignments from 0 to 64 MiB and more; non-trivial: at least two contributions, one of them aligned to more than 16 bytes",
            Profile { secs: (2, 9), slots: (0, 3), names: (1, 4), high_align: 40, same_name: 8, nobits: 20, tiny: 30, pile: 60, ..d() },
            same,
        ),
        "L04" => link_prop(
            "L04",
            16000,
            &["ref", "symtab", "content", "overlap", "common"],
            |c, _| contested(c) >= 1,
            "random objects whose names are defined strongly, weakly, commonly and locally several times over; non-trivial: some name has at least two definitions among the linked objects",
            Profile { mess: 60, commons: 15, names: (2, 8), archives: 25, ..d() },
            same,
        ),
        "L05" => link_prop(
            "L05",
            16000,
            &["dup"],
            |c, l| n(l, "links that must fail: duplicate") == 1 || contested(c) >= 1,
            "random objects, with second strong definitions added in 60% of the cases (in any linked or unlinked object); non-trivial: some name has at least two definitions among the linked objects",
            Profile { mess: 50, commons: 12, archives: 35, objs: (2, 4), slots: (0, 3), ..d() },
            tweak_dup,
        ),
        "L06" => link_prop(
            "L06",
            16000,
            &["undef"],
            |_, l| n(l, "links that must fail: unresolved") + n(l, "unresolved weak") >= 1,
            "random objects with references nobody defines, weak or strong; non-trivial: some name is unresolved",
            Profile { weak_zero: 35, archives: 25, libs: 40, slots: (1, 6), ..d() },
            tweak_undef,
        ),
        "L07" => link_prop(
            "L07",
            16000,
            &["archive", "content", "ref", "symtab"],
            |c, _| {
                let m = resolve(c);
                let members: usize = c.archives.iter().map(|a| a.members.len()).sum();
                members > 0 && m.loaded.len() > m.explicit.len()
            },
            "random objects and archives; non-trivial: at least one archive member is needed",
            Profile { archives: 100, objs: (1, 3), names: (2, 9), slots: (1, 6), libs: 20, chain: 12, twice: 12, bsd: 1200, ..d() },
            tweak_members,
        ),
        "L08" => link_prop(
            "L08",
            16000,
            &["plt", "got", "load"],
            |_, l| n(l, "calls to imported functions") + n(l, "stored pointers to imported functions") >= 1,
            "random objects and shared libraries exporting functions; non-trivial: at least one call to or stored address of an imported function was followed to its target",
            Profile { libs: 100, import_data: 10, names: (2, 9), slots: (1, 8), got: 25, crowd: 12, ..d() },
            same,
        ),
        "L09" => link_prop(
            "L09",
            16000,
            &["copy", "load"],
            |_, l| n(l, "imported objects with storage in the program") >= 1,
            "random objects and shared libraries exporting data; non-trivial: at least one imported object has storage in the program",
            Profile { libs: 100, import_data: 85, names: (2, 9), slots: (1, 8), got: 20, ..d() },
            same,
        ),
        "L10" => link_prop(
            "L10",
            16000,
            &["hash"],
            |_, l| n(l, "hash lookups") >= 16,
            "random sets of imported names, among them colliding ones; non-trivial: at least 16 lookups were made in the hash tables of the output",
            Profile { libs: 100, names: (2, 30), slots: (3, 12), hash_names: 70, objs: (1, 3), crowd: 6, ..d() },
            same,
        ),
        "L11" => link_prop(
            "L11",
            16000,
            &["elf", "align", "prot"],
            |_, l| n(l, "sections compared") >= 2,
            "random sets of inputs of all kinds; non-trivial: a link with at least two loaded contributions was examined",
            Profile { secs: (1, 8), big: 8, nonalloc: 15, huge_bss: 10, vast: 80, rainbow: 25, archives: 25, odd: 20, swarm: 15, horde: 3, ..d() },
            same,
        ),
        "L12" => link_prop(
            "L12",
            16000,
            &["symtab"],
            |_, l| n(l, "global names compared with .symtab") >= 3,
            "random sets of symbols; non-trivial: at least three global names were looked up in the output symbol table",
            Profile { names: (2, 12), mess: 35, hash_names: 30, commons: 8, abs: 20, swarm: 12, sea: 6, ..d() },
            same,
        ),
        "L13" => link_prop(
            "L13",
            16000,
            &["dynamic", "needed", "load"],
            |_, l| n(l, "needed libraries") >= 1,
            "random sets of shared libraries, used or not, under --as-needed or not; non-trivial: at least one library must be listed",
            Profile { libs: 100, as_needed: 60, names: (1, 7), slots: (0, 5), two_homes: 30, twice: 20, crowd: 6, ..d() },
            same,
        ),
        "L14" => link_prop(
            "L14",
            16000,
            &["init"],
            |_, l| n(l, "init and fini pointers") + n(l, "joined .init or .fini fragments") >= 2,
            "random .init_array, .fini_array, .init and .fini contributions; non-trivial: at least two pointers or fragments",
            Profile { init: 80, special: 40, slots: (0, 4), pile: 200, legion: 40, ..d() },
            same,
        ),
        "L21" => link_prop(
            "L21",
            16000,
            &["nobits", "common"],
            |_, l| n(l, "zero-initialised sections") + n(l, "common symbols") >= 2,
            "random mixtures of file-less and other sections and common symbols; non-trivial: at least two file-less contributions",
            Profile { secs: (2, 8), nobits: 50, huge_bss: 12, commons: 15, same_name: 6, slots: (0, 4), vast: 30, pile: 60, ..d() },
            same,
        ),
        "L22" => link_prop(
            "L22",
            16000,
            &["got", "near"],
            |_, l| n(l, "through the GOT") >= 2,
            "random instructions that reach symbols through the GOT; non-trivial: at least two of them were compared",
            Profile { got: 75, slots: (2, 9), libs: 35, names: (2, 8), debug_only: false, ..d() },
            same,
        ),
        "L23" => link_prop(
            "L23",
            16000,
            &["nonalloc"],
            |_, l| n(l, "non-loaded sections") >= 2,
            "random objects with debug and comment sections; non-trivial: at least two non-loaded sections were compared",
            Profile { nonalloc: 50, secs: (2, 7), swarm: 10, ..d() },
            same,
        ),
        "L24" => Prop {
            evaluate: Box::new(|job, env| {
                let Job::Link(c) = job else { crate::fatal("wrong kind of job") };
                again(c, env)
            }),
            ..link_prop(
                "L24",
                8000,
                &[],
                |_, _| true,
                "random sets of inputs of all kinds, each linked three times (once in the presence of an earlier output); non-trivial: the link succeeded and had at least six sections and symbols to place",
                Profile { slots: (0, 6), names: (2, 12), archives: 40, libs: 50, commons: 10, ..d() },
                tweak_members,
            )
        },
        "L15" => cmd_prop(
            "L15",
            16000,
            true,
            &["content", "archive", "order", "needed", "dup", "undef", "elf"],
            "random trees of files in which one to three linker scripts stand for ranges of the inputs, 40% of them with mutated text; non-trivial: a script is present and the command line means a link of at least two inputs or has to be rejected",
        ),
        "L16" => cmd_prop(
            "L16",
            16000,
            false,
            &["content", "archive", "order", "needed", "dup", "undef", "elf", "hash", "dynamic"],
            "random trees of files with others of the same names in other directories, and random command lines for them, 35% of them mutated; non-trivial: the command line means a link of at least two inputs, a request for help, or has to be rejected",
        ),
        "L18" => Prop {
            id: "L18",
            quick: 16000,
            thorough: 600_000,
            tape: 2000,
            shrink: 1500,
            rule: "random valid objects, archives and shared libraries with one to eight injuries: a field of a header, symbol, relocation, dynamic entry, index or archive header set to another value, bytes or stretches changed, copied, inserted, deleted or cut off, or a file made up altogether; non-trivial: at least one injury was made",
            assumptions: vec!["bounded means 10 s of processor time, 30 s of time and 4 GB of memory for inputs of a few kilobytes"],
            generate: Box::new(|tape| Job::Damage(crate::damage::gen(&mut Tape::new(tape)))),
            evaluate: Box::new(|job, env| {
                let Job::Damage(d) = job else { crate::fatal("wrong kind of job") };
                crate::damage::eval(d, env)
            }),
        },
        "L26" => Prop {
            id: "L26",
            quick: 12000,
            thorough: 400_000,
            tape: 1500,
            shrink: 1000,
            rule: "random links among other files, with output paths that are new, taken, spelt in unusual ways, impossible, or lead to an input or another file through a symbolic or hard link; non-trivial: there were other files and the inputs can be linked",
            assumptions: vec!["nobody else changes the files meanwhile"],
            generate: Box::new(|tape| Job::Touch(crate::touch::gen(&mut Tape::new(tape)))),
            evaluate: Box::new(|job, env| {
                let Job::Touch(x) = job else { crate::fatal("wrong kind of job") };
                crate::touch::eval(x, env)
            }),
        },
        "L25" => Prop {
            id: "L25",
            quick: 16000,
            thorough: 500_000,
            tape: 2000,
            shrink: 1500,
            rule: "random valid links with one input that is for another machine, is no object file, is cut short, has a section or relocation outside of what it should be in, or refers to a section, symbol or name that does not exist; non-trivial: the injured file is part of the link",
            assumptions: vec!["without the injury, the link would succeed (which the other checks show)"],
            generate: Box::new(|tape| Job::Damage(crate::broken::gen(&mut Tape::new(tape)))),
            evaluate: Box::new(|job, env| {
                let Job::Damage(d) = job else { crate::fatal("wrong kind of job") };
                crate::broken::eval(d, env)
            }),
        },
        "L19" => Prop {
            id: "L19",
            quick: 12000,
            thorough: 300_000,
            tape: 2000,
            shrink: 1500,
            rule: "random links in which up to three fields get addends that bring their values to, just inside or beyond a limit of the field, or one field has a relocation of another type, or an instruction that may be rewritten to do without its slot has a target near or beyond its reach; non-trivial: such a field is part of the link",
            assumptions: vec!["addends do not change the layout"],
            generate: Box::new(|tape| Job::Range(crate::range::gen(&mut Tape::new(tape)))),
            evaluate: Box::new(|job, env| {
                let Job::Range(x) = job else { crate::fatal("wrong kind of job") };
                crate::range::eval(x, env)
            }),
        },
        "L20" => Prop {
            id: "L20",
            quick: 300,
            thorough: 8000,
            tape: 3000,
            shrink: 0,
            rule: "random C and C++ programs of up to eight files in objects, archives and shared libraries, compiled by gcc and clang with random options; non-trivial: the program compiles and the system linker links it to a program that does not crash",
            assumptions: vec!["the system linker links these programs correctly"],
            generate: Box::new(|tape| Job::Prog(crate::prog::gen(&mut Tape::new(tape)))),
            evaluate: Box::new(|job, env| {
                let Job::Prog(x) = job else { crate::fatal("wrong kind of job") };
                crate::prog::eval(x, env)
            }),
        },
        "L17" => Prop {
            id: "L17",
            quick: 12000,
            thorough: 250_000,
            tape: 2000,
            shrink: 1500,
            rule: "random links, 60% of them with an input that cannot be linked, over various earlier outputs, with a limit on the size of the output, a full standard output, or one operation (from opening the output on) that fails, is cut short or kills the linker; non-trivial: the link failed or something went wrong on the way",
            assumptions: vec!["operations on files go through libc functions, where a preloaded library counts them and makes one of them fail"],
            generate: Box::new(|tape| Job::Fault(crate::fault::gen(&mut Tape::new(tape)))),
            evaluate: Box::new(|job, env| {
                let Job::Fault(f) = job else { crate::fatal("wrong kind of job") };
                crate::fault::eval(f, env)
            }),
        },
        "ALL" => link_prop(
            "ALL",
            30000,
            &["ref", "content", "prot", "overlap", "order", "align", "symtab", "dup", "undef", "archive", "plt", "got", "copy", "load", "hash", "elf", "dynamic", "needed", "init", "nobits", "nonalloc", "near", "left", "common"],
            |_, _| true,
            "",
            Profile { slots: (0, 8), ..d() },
            same,
        ),
        _ => return None,
    })
}

// ---------------------------------------------------------------- minimising and printing

/// Cases with one thing less.
pub fn smaller_cases(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    for i in (0..c.inputs.len()).rev() {
        let mut d = c.clone();
        d.inputs.remove(i);
        if resolve(&d).names.contains_key("_start") {
            v.push(d);
        }
    }
    for o in 0..c.objs.len() {
        for s in 0..c.objs[o].secs.len() {
            for r in (0..c.objs[o].secs[s].rels.len()).rev() {
                let mut d = c.clone();
                d.objs[o].secs[s].rels.remove(r);
                v.push(d);
            }
        }
    }
    v
}

fn smaller(job: &Job) -> Vec<Job> {
    match job {
        Job::Link(_) => vec![],
        Job::Cmd(c) => crate::cmd::smaller(c).into_iter().map(Job::Cmd).collect(),
        Job::Fault(f) => crate::fault::smaller(f).into_iter().map(Job::Fault).collect(),
        Job::Damage(d) => crate::damage::smaller(d).into_iter().map(Job::Damage).collect(),
        Job::Range(x) => crate::range::smaller(x).into_iter().map(Job::Range).collect(),
        Job::Prog(x) => crate::prog::smaller(x).into_iter().map(Job::Prog).collect(),
        Job::Touch(x) => crate::touch::smaller(x).into_iter().map(Job::Touch).collect(),
    }
}

/// Proptest has shrunk the tape; this removes what the case itself can do without.
pub fn reduce(job: &mut Job, fails: &mut dyn FnMut(&Job) -> bool) {
    let t0 = std::time::Instant::now();
    let mut try_it = |job: &mut Job, f: &dyn Fn(&mut Case) -> bool| -> bool {
        if t0.elapsed().as_secs() > 30 {
            return false;
        }
        let mut j = job.clone();
        let Job::Link(c) = &mut j else { return false };
        if !f(c) {
            return false;
        }
        if fails(&j) {
            *job = j;
            true
        } else {
            false
        }
    };
    if !matches!(job, Job::Link(_)) {
        let limit = if matches!(job, Job::Prog(_)) { 150 } else { 45 };
        let mut again = true;
        while again {
            again = false;
            for j in smaller(job) {
                if t0.elapsed().as_secs() > limit {
                    return;
                }
                if fails(&j) {
                    *job = j;
                    again = true;
                    break;
                }
            }
        }
        return;
    }
    let Job::Link(c0) = job.clone() else { return };
    for i in (0..c0.inputs.len()).rev() {
        try_it(job, &|c| {
            if i < c.inputs.len() {
                c.inputs.remove(i);
                resolve(c).names.contains_key("_start")
            } else {
                false
            }
        });
    }
    for o in 0..c0.objs.len() {
        for s in 0..c0.objs[o].secs.len() {
            for r in (0..c0.objs[o].secs[s].rels.len()).rev() {
                try_it(job, &|c| {
                    let v = &mut c.objs[o].secs[s].rels;
                    if r < v.len() {
                        v.remove(r);
                        true
                    } else {
                        false
                    }
                });
            }
        }
        for k in (0..c0.objs[o].syms.len()).rev() {
            try_it(job, &|c| {
                let ob = &mut c.objs[o];
                if k >= ob.syms.len() || ob.syms[k].name == "_start" || ob.secs.iter().any(|s| s.rels.iter().any(|r| r.tgt == Tgt::Sym(k))) {
                    return false;
                }
                ob.syms.remove(k);
                for s in &mut ob.secs {
                    for r in &mut s.rels {
                        if let Tgt::Sym(x) = &mut r.tgt {
                            if *x > k {
                                *x -= 1
                            }
                        }
                    }
                }
                true
            });
        }
    }
}

fn sample_case(c: &Case) -> Value {
    let objs: Vec<Value> = c
        .objs
        .iter()
        .enumerate()
        .map(|(i, o)| {
            json!({
                "file": Case::obj_file(i),
                "sections": o.secs.iter().map(|s| format!("{} size {} align {}: {}", s.name, s.size, s.align,
                    s.rels.iter().map(|r| format!("{}@{:#x} -> {:?}{:+}", verify::kind_name(r.kind), r.off, r.tgt, r.addend)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>(),
                "symbols": o.syms.iter().map(|s| format!("{} {} {:?}", s.name, ["local", "global", "weak"][s.bind as usize % 3], s.place)).collect::<Vec<_>>(),
            })
        })
        .collect();
    json!({"command": c.args().join(" "), "objects": objs,
        "archives": c.archives.iter().map(|a| format!("{:?}{}", a.members, ["", " as BSD", " as LLVM for BSD", " as BSD (sorted)", " as BSD (sorted, short name)"][a.bsd as usize % 5])).collect::<Vec<_>>(),
        "libraries": c.libs.iter().map(|l| format!("{:?} exports {:?} wants {:?}", l.soname, l.exports.iter().map(|e| format!("{}{}", e.name, if e.func {"()"} else {""})).collect::<Vec<_>>(), l.undefs)).collect::<Vec<_>>()})
}

pub fn sample(job: &Job) -> Value {
    match job {
        Job::Link(c) => sample_case(c),
        Job::Cmd(c) => crate::cmd::sample(c),
        Job::Damage(d) => json!({"link": sample_case(&d.case), "damage": d.edits.iter().map(|e| format!("{}: {} {:x?}", e.file, e.what, e.op)).collect::<Vec<_>>()}),
        Job::Prog(x) => json!({"script": crate::prog::script(x), "lines": x.units.iter().map(|u| u.chunks.iter().map(|c| c.body.len() + 1).sum::<usize>()).collect::<Vec<_>>()}),
        Job::Touch(x) => json!({"link": sample_case(&x.case), "output": format!("{:?}: {}", x.out, x.what), "besides": format!("{:?}", x.things)}),
        Job::Range(x) => json!({"link": sample_case(&x.case), "probes": format!("{:?} {:?} {:?}", x.probes, x.alien, x.far)}),
        Job::Fault(f) => json!({"link": sample_case(&f.case), "inputs": format!("{:?}", f.spoil), "at the output path": f.before, "what goes wrong": format!("{:?}", f.how)}),
    }
}

pub fn dump(job: &Job, dir: &Path) {
    match job {
        Job::Link(c) => {
            write_inputs(c, dir);
            std::fs::write(dir.join("command"), format!("dld {}\n", c.args().join(" "))).ok();
        }
        Job::Damage(d) => {
            crate::damage::write(d, dir);
            std::fs::write(dir.join("command"), format!("dld {}\n", d.case.args().join(" "))).ok();
        }
        Job::Range(x) => {
            let mut c = x.case.clone();
            if let Some((o, s, r, k)) = x.alien {
                c.objs[o].secs[s].rels[r].kind = k;
            }
            write_inputs(&c, dir);
            std::fs::write(dir.join("command"), format!("dld {}\n", c.args().join(" "))).ok();
        }
        Job::Fault(f) => {
            write_inputs(&f.case, dir);
            std::fs::write(dir.join("command"), format!("dld {}\n", f.case.args().join(" "))).ok();
        }
        Job::Touch(x) => {
            crate::touch::write(x, dir);
            std::fs::write(dir.join("command"), format!("dld {:?}\n", crate::touch::args(x))).ok();
        }
        Job::Prog(x) => {
            crate::prog::write(x, dir);
            std::fs::write(dir.join("command"), crate::prog::script(x)).ok();
        }
        Job::Cmd(c) => {
            crate::cmd::write_tree(c, dir);
            std::fs::write(dir.join("command"), format!("dld {}\n", c.argv.join(" ").replace("@@", dir.to_str().unwrap()))).ok();
        }
    }
}
