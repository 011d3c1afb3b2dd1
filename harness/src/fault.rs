//! Links that go wrong: bad inputs, an output that cannot be written any further, death at any
//! operation, with whatever was at the output path before.
use crate::case::*;
use crate::gen::{self, Profile};
use crate::model::*;
use crate::props::*;
use crate::run::*;
use crate::tape::Tape;
use crate::verify::Labels;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// nothing but the inputs goes wrong, if anything
    Plain,
    /// the file may grow to this share of its size (of 65536), or to so many bytes less than it
    Size { frac: u32, back: Option<u64>, kill: bool },
    /// the standard output takes nothing
    StdoutFull,
    /// the operation at this share of all operations (of 65536), or so many before the last one
    Op { frac: u32, back: Option<u64>, mode: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Spoil {
    None,
    /// the object file ends after this share (of 65536)
    Cut(usize, u32),
    /// a byte of the object file is another one
    Byte(usize, u32, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub case: Case,
    pub spoil: Spoil,
    /// what is at the output path: 0 nothing, 1 a small and 2 a large executable, 3 a link to one,
    /// 4 a file that is not executable
    pub before: u8,
    pub how: How,
}

pub fn gen(t: &mut Tape) -> Fault {
    let p = Profile { objs: (1, 3), secs: (1, 5), names: (1, 6), slots: (0, 4), big: 10, archives: 15, huge_bss: 2, ..Default::default() };
    let mut c = gen::gen(t, &p);
    let before = *t.pick(&[1, 2, 0, 3, 4, 1]);
    let mut spoil = Spoil::None;
    let mut how = How::Plain;
    let o = t.below(c.objs.len());
    match t.below(10) {
        0 => {
            c.objs[o].syms.push(Sym { name: "nowhere".into(), bind: GLOBAL, ty: 0, vis: 0, place: Place::Undef, size: 0 });
        }
        1 => {
            let v: Vec<String> = c.objs.iter().flat_map(|o| &o.syms).filter(|s| (s.bind == GLOBAL || s.name == "_start") && matches!(s.place, Place::Sec(..))).map(|s| s.name.clone()).collect();
            let n = t.pick(&v).clone();
            if !c.objs[o].syms.iter().any(|s| s.name == n) {
                c.objs[o].syms.push(Sym { name: n, bind: GLOBAL, ty: 0, vis: 0, place: Place::Abs(5), size: 0 });
            }
        }
        2 | 3 => {
            // a relocation of an unsupported type, or one whose value does not fit
            let v: Vec<(usize, usize)> = c.objs[o].secs.iter().enumerate().flat_map(|(i, s)| (0..s.rels.len()).map(move |r| (i, r))).collect();
            if !v.is_empty() {
                let (s, r) = *t.pick(&v);
                let r = &mut c.objs[o].secs[s].rels[r];
                if t.chance(50) {
                    r.kind = *t.pick(&[3, 20, 33, 200]);
                } else if r.kind != R_64 && r.kind != R_NONE {
                    r.addend = 1 << 40;
                }
            }
        }
        4 => spoil = Spoil::Cut(o, t.below(65536) as u32),
        5 => spoil = Spoil::Byte(o, t.below(65536) as u32, t.below(256) as u8),
        _ => {}
    }
    if t.chance(75) {
        let back = if t.chance(35) { Some(*t.pick(&[1u64, 2, 8, 64, 100, 700, 3, 4095])) } else { None };
        let frac = t.below(65536) as u32;
        how = match t.below(8) {
            0 => How::StdoutFull,
            1 | 2 => How::Size { frac, back, kill: t.chance(40) },
            _ => How::Op { frac, back: back.map(|b| b.min(t.below(12) as u64)), mode: t.pick(&["kill", "enospc", "eio", "short", "eintr"]).to_string() },
        };
    }
    Fault { case: c, spoil, before, how }
}

fn exe_mode(p: &Path) -> bool {
    std::fs::metadata(p).map_or(false, |m| m.is_file() && m.permissions().mode() & 0o111 != 0)
}

/// Whether the file is no longer recognised as an object file, so that nothing is linked at all.
fn unrecognised(f: &Fault) -> bool {
    let len = |o: usize| crate::write::object(&f.case.objs[o]).len() as u64;
    match f.spoil {
        Spoil::None => false,
        Spoil::Cut(o, at) => (len(o) * at as u64 >> 16) < 64,
        Spoil::Byte(o, at, _) => (len(o) * at as u64 >> 16) < 20,
    }
}

/// Puts the inputs in place.
fn inputs(f: &Fault, dir: &Path) -> Vec<Vec<u64>> {
    let offs = write_inputs(&f.case, dir);
    let (o, edit): (usize, &dyn Fn(&mut Vec<u8>)) = match &f.spoil {
        Spoil::None => return offs,
        Spoil::Cut(o, at) => (*o, &|b: &mut Vec<u8>| b.truncate((b.len() as u64 * *at as u64 >> 16) as usize)),
        Spoil::Byte(o, at, v) => (*o, &|b: &mut Vec<u8>| {
            let i = (b.len() as u64 * *at as u64 >> 16) as usize;
            b[i] = *v;
        }),
    };
    let p = dir.join(Case::obj_file(o));
    // (a member of an archive stays whole)
    if let Ok(mut b) = std::fs::read(&p) {
        edit(&mut b);
        put(&p, &b);
    }
    offs
}

fn earlier(f: &Fault, dir: &Path) -> Option<Vec<u8>> {
    let p = dir.join("out");
    let small = b"#!/bin/sh\nexit 0\n".to_vec();
    let (b, m) = match f.before {
        0 => return None,
        2 => (small.repeat(20_000), 0o755),
        4 => (small, 0o644),
        _ => (small, 0o755),
    };
    let q = if f.before == 3 { dir.join("behind") } else { p.clone() };
    put(&q, &b);
    std::fs::set_permissions(&q, PermissionsExt::from_mode(m)).ok();
    give(&q);
    if f.before == 3 {
        let _ = std::os::unix::fs::symlink("behind", &p);
    }
    Some(b)
}

pub fn eval(f: &Fault, env: &Env) -> Eval {
    let mut ev = Eval::default();
    let c = &f.case;
    let m = resolve(c);
    let must_fail = !m.dup.is_empty() || !m.undef.is_empty();
    let spoiled = f.spoil != Spoil::None || c.objs.iter().any(|o| o.secs.iter().any(|s| s.rels.iter().any(|r| r.addend == 1 << 40 || [3, 20, 33, 200].contains(&r.kind))));
    let out = env.dir.join("out");
    let label = |l: &mut Labels, s: &'static str| *l.entry(s).or_insert(0) += 1;

    // what the link does when nothing else happens
    let (mut lim, mut vars) = (Limits::default(), vec![]);
    let shim = env.dld.parent().unwrap().join("fault.so");
    let shim = shim.to_str().unwrap().to_string();
    let log = env.dir.join("fault.log");
    let log = log.to_str().unwrap().to_string();
    let at: String;
    let mut reference: Option<Vec<u8>> = None;
    let mut limit = None;
    match &f.how {
        How::Plain => {}
        How::StdoutFull => {
            clean(&env.dir);
            inputs(f, &env.dir);
            if run(&env.dld, &c.args(), &env.dir, &Limits::default(), &[]).ok() {
                reference = std::fs::read(&out).ok();
            }
            lim.stdout_full = true
        }
        How::Size { frac, back, kill } => {
            clean(&env.dir);
            inputs(f, &env.dir);
            let o = run(&env.dld, &c.args(), &env.dir, &Limits::default(), &[]);
            if o.ok() {
                reference = std::fs::read(&out).ok();
            }
            let size = reference.as_ref().map_or(5000, |b| b.len() as u64);
            let l = match back {
                Some(b) => size.saturating_sub(*b),
                None => (size + size / 8) * *frac as u64 >> 16,
            };
            limit = Some(l);
            lim.fsize = Some(l);
            lim.ignore_fsize = !*kill;
        }
        How::Op { frac, back, mode } => {
            clean(&env.dir);
            inputs(f, &env.dir);
            earlier(f, &env.dir);
            let o = run(&env.dld, &c.args(), &env.dir, &Limits::default(), &[("LD_PRELOAD", &shim), ("FAULT_LOG", &log), ("FAULT_OUT", "out")]);
            if o.ok() {
                reference = std::fs::read(&out).ok();
            }
            let ops = std::fs::read(&log).map_or(0, |b| b.len() as u64);
            let n = match back {
                Some(b) => ops.saturating_sub(*b + 1),
                None => ops * *frac as u64 >> 16,
            };
            at = n.to_string();
            vars = vec![("LD_PRELOAD", &shim[..]), ("FAULT_LOG", &log[..]), ("FAULT_OUT", "out"), ("FAULT_AT", &at[..]), ("FAULT_MODE", &mode[..])];
        }
    }

    clean(&env.dir);
    inputs(f, &env.dir);
    let old = earlier(f, &env.dir);
    let o = run(&env.dld, &c.args(), &env.dir, &lim, &vars);
    let ops = std::fs::read(&log).unwrap_or_default();
    let killed = o.signal == Some(libc::SIGXFSZ) && lim.fsize.is_some() && !lim.ignore_fsize
        || o.signal == Some(libc::SIGKILL) && matches!(&f.how, How::Op { mode, .. } if mode == "kill");
    if let (Some(s), false) = (o.signal, killed) {
        ev.fails.push(format!("[left] the linker was killed by signal {}: {}", s, o.brief()));
        return ev;
    }
    let after = std::fs::read(&out).ok();
    if o.ok() {
        label(&mut ev.labels, "links that succeeded");
        if spoiled {
            // whether this link should have succeeded is another property's business
            if !exe_mode(&out) {
                ev.fails.push("[complete] the link succeeded without an executable output".into());
            }
        } else {
            let mut bad = vec![];
            if !exe_mode(&out) {
                bad.push("there is no executable output".to_string());
            }
            if let Some(l) = limit {
                if after.as_ref().map_or(0, |b| b.len() as u64) > l {
                    bad.push(format!("the output is larger than the limit {}", l));
                }
            }
            if let Some(r) = &reference {
                if after.as_ref() != Some(r) {
                    bad.push("the output differs from that of the same link without the fault".into());
                }
            }
            ev.fails.extend(bad.into_iter().map(|b| format!("[complete] the link succeeded with {:?}, but {}", f.how, b)));
        }
    } else {
        label(&mut ev.labels, if killed { "links killed" } else { "links that failed" });
        if exe_mode(&out) {
            let complete = reference.is_some() && after == reference;
            let untouched = after == old && !ops.contains(&b'w');
            let late = killed && complete;
            let early = untouched && (killed || unrecognised(f));
            if !late && !early {
                let what = if complete { "a complete new image" } else if after == old { "what was there before" } else { "part of a new image" };
                ev.fails.push(format!("[left] the link ended with {}, and the output path holds {}, executable", o.brief(), what));
            }
        }
        if !killed && o.stderr.trim().is_empty() && o.stdout.is_empty() {
            ev.fails.push(format!("[left] the link failed without a word: {}", o.brief()));
        }
        if f.before > 0 && f.before < 4 {
            label(&mut ev.labels, "failures over an earlier executable");
        }
        if !killed && f.how == How::Plain && !must_fail && !spoiled {
            ev.fails.push(format!("[left] a valid link fails with {}", o.brief()));
        }
        if !killed && !must_fail && !spoiled && matches!(&f.how, How::StdoutFull) {
            ev.fails.push(format!("[left] a valid link fails when its standard output is full: {}", o.brief()));
        }
        if !must_fail && !spoiled && matches!(&f.how, How::Op { mode, .. } if mode == "short" || mode == "eintr") {
            ev.fails.push(format!("[left] a valid link fails because of a short or interrupted transfer: {}", o.brief()));
        }
    }
    match &f.how {
        How::Size { .. } => label(&mut ev.labels, "with a limit on the size of the output"),
        How::Op { .. } => label(&mut ev.labels, "with a fault in one operation"),
        How::StdoutFull => label(&mut ev.labels, "with a full standard output"),
        How::Plain => {}
    }
    ev.nontrivial = !o.ok() || f.how != How::Plain;
    ev
}

pub fn smaller(f: &Fault) -> Vec<Fault> {
    let mut v = vec![];
    let mut add = |g: Fault| v.push(g);
    if f.before > 1 {
        add(Fault { before: 1, ..f.clone() });
    }
    if f.spoil != Spoil::None {
        add(Fault { spoil: Spoil::None, ..f.clone() });
    }
    for c in smaller_cases(&f.case) {
        add(Fault { case: c, ..f.clone() });
    }
    v
}
