//! Inputs that are not for this machine, not complete, or refer to what does not exist: one fault
//! each in an otherwise valid link, which has to fail because of it.
use crate::case::*;
use crate::damage::{Damage, Edit, Op};
use crate::gen::{self, Profile};
use crate::image::{rd16, rd32, rd64};
use crate::model::*;
use crate::props::*;
use crate::run::*;
use crate::tape::Tape;
use crate::write;

struct Sh {
    at: usize,
    ty: u32,
    off: usize,
    size: usize,
    info: usize,
    link: usize,
}

/// Section headers of an ELF file.
fn sections(e: &[u8]) -> Vec<Sh> {
    let shoff = rd64(e, 40).unwrap() as usize;
    (0..rd16(e, 60).unwrap() as usize)
        .map(|i| {
            let h = shoff + 64 * i;
            Sh {
                at: h,
                ty: rd32(e, h + 4).unwrap(),
                off: rd64(e, h + 24).unwrap() as usize,
                size: rd64(e, h + 32).unwrap() as usize,
                info: rd32(e, h + 44).unwrap() as usize,
                link: rd32(e, h + 40).unwrap() as usize,
            }
        })
        .collect()
}

/// Holds what ends up in the output.
fn content(s: &Sh) -> bool {
    ![0, 2, 3, 4, 9, 17].contains(&s.ty)
}

/// Where the ELF file of object `o` is.
fn place(c: &Case, o: usize, bytes: &[u8]) -> Option<(String, usize)> {
    let homes: Vec<usize> = (0..c.archives.len()).filter(|a| c.archives[*a].members.iter().any(|m| m.1 == o)).collect();
    if homes.is_empty() {
        return Some((Case::obj_file(o), 0));
    }
    if homes.len() > 1 {
        return None;
    }
    let all: Vec<Vec<u8>> = c.objs.iter().map(write::object).collect();
    let f = write::archive(&c.archives[homes[0]], &c.objs, &all);
    let mut found = vec![];
    let mut at = 8;
    while at + 60 <= f.len() {
        let size: usize = String::from_utf8_lossy(&f[at + 48..at + 58]).trim().parse().unwrap();
        if f[at + 60..at + 60 + size] == *bytes {
            found.push(at + 60);
        }
        at += 60 + size + size % 2;
    }
    if found.len() == 1 {
        Some((Case::ar_file(homes[0]), found[0]))
    } else {
        None
    }
}

/// A value of at least `min` that fits the width.
fn beyond(t: &mut Tape, min: u64, max: u64) -> u64 {
    let v = match t.below(6) {
        0 => min,
        1 => min + 1,
        2 => max,
        3 => max / 2,
        4 => min * 2,
        _ => min + t.below(1000) as u64,
    };
    v.clamp(min, max)
}

pub fn gen(t: &mut Tape) -> Damage {
    // what to do is drawn first, as the rest of the tape may be too short for the link
    let first: Vec<u32> = (0..12).map(|_| t.raw()).collect();
    let u = &mut Tape::new(&first);
    let p = Profile { objs: (1, 3), secs: (1, 5), names: (1, 7), slots: (1, 5), archives: 45, libs: 45, init: 15, got: 20, odd: 8, nonalloc: 15, commons: 12, ..Default::default() };
    let c = gen::gen(t, &p);
    let m = resolve(&c);
    let mut edits = vec![];
    if m.dup.is_empty() && m.undef.is_empty() {
        let libs: Vec<usize> = (0..c.libs.len()).filter(|l| m.needed[*l] == Some(true)).collect();
        if !libs.is_empty() && u.chance(14) {
            let l = *u.pick(&libs);
            edits.extend(library(u, &c, l));
        } else {
            let members: Vec<usize> = m.loaded.iter().copied().filter(|o| !m.explicit.contains(o)).collect();
            let o = if !members.is_empty() && u.chance(40) { *u.pick(&members) } else { *u.pick(&m.loaded) };
            edits.extend(object(u, &c, o));
        }
    }
    Damage { case: c, edits }
}

fn library(t: &mut Tape, c: &Case, l: usize) -> Option<Edit> {
    let (what, op) = match t.below(6) {
        4 | 5 => {
            // the tables that tell what it offers come before the section headers
            let b = write::shared(l, &c.libs[l]).0;
            let end = sections(&b).iter().filter(|s| s.ty == 11 || s.ty == 3).map(|s| s.off + s.size).max().unwrap_or(64);
            ("is cut short", Op::Cut(if t.chance(30) { t.range(1, 63) } else { t.range(1, end - 1) }))
        }
        3 => ("is no shared library", Op::Put(16, t.pick(&[2u16, 4, 0, 0xfe00]).to_le_bytes().to_vec())),
        0 => ("is for another machine", Op::Put(18, t.pick(&[3u16, 183, 243, 8, 0, 40]).to_le_bytes().to_vec())),
        1 => ("is for 32-bit programs", Op::Put(4, vec![1])),
        _ => ("is in the other byte order", Op::Put(5, vec![2])),
    };
    Some(Edit { file: Case::lib_file(l), what: what.into(), op })
}

fn object(t: &mut Tape, c: &Case, o: usize) -> Option<Edit> {
    let b = write::object(&c.objs[o]);
    let (file, base) = place(c, o, &b)?;
    let shs = sections(&b);
    let some = |v: Vec<usize>, t: &mut Tape| if v.is_empty() { None } else { Some(*t.pick(&v)) };
    let having = |f: &dyn Fn(&Sh) -> bool| (0..shs.len()).filter(|i| f(&shs[*i])).collect::<Vec<_>>();
    let sym = &shs[having(&|s| s.ty == 2)[0]];
    let rela = |t: &mut Tape, none_too: bool| {
        let v: Vec<(usize, usize)> = having(&|s| s.ty == 4)
            .into_iter()
            .flat_map(|i| (0..shs[i].size / 24).map(move |k| (i, k)))
            .filter(|(i, k)| none_too || rd32(&b, shs[*i].off + 24 * k + 8).unwrap() != 0)
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(*t.pick(&v))
        }
    };
    let put = |at: usize, v: Vec<u8>| Op::Put(base + at, v);
    let (what, op): (&str, Op) = match t.below(25) {
        22 => {
            let v: Vec<usize> = (1..sym.size / 24).filter(|k| rd16(&b, sym.off + 24 * k + 6) == Some(0xfff2)).collect();
            let k = some(v, t)?;
            let v = *t.pick(&[3u64, 12, 6, 24, 48, 100, 4095, 4097, 1 << 62 | 1, u64::MAX]);
            ("has a common symbol with an alignment that is no power of two", put(sym.off + 24 * k + 8, v.to_le_bytes().to_vec()))
        }
        23 => {
            let s = &shs[some(having(&|s| content(s) && s.ty != 8), t)?];
            ("has section numbers in a table of their own", put(s.at + 4, 18u32.to_le_bytes().to_vec()))
        }
        24 => {
            let (i, k) = rela(t, true)?;
            // what only the loader knows, or nobody
            let n = *t.pick(&[5u32, 6, 7, 8, 16, 18, 37, 38, 43, 44, 100, 255, 256, 257, 0x1_0001, 0x8000_0001, u32::MAX]);
            ("has a relocation of a kind that does not exist", put(shs[i].off + 24 * k + 8, n.to_le_bytes().to_vec()))
        }
        16 => {
            let n = beyond(t, shs.len() as u64, 0xfeff) as u16;
            ("has section names in a section that does not exist", put(62, n.to_le_bytes().to_vec()))
        }
        17 => ("has section headers outside of the file", put(40, beyond(t, (b.len() - 64 * shs.len() + 1) as u64, 1 << 62).to_le_bytes().to_vec())),
        18 => ("has section headers of another size", put(58, t.pick(&[0u16, 1, 40, 63, 65, 128, 0xffff]).to_le_bytes().to_vec())),
        19 => {
            let n = beyond(t, shs.len() as u64, u32::MAX as u64) as u32;
            ("has symbol names in a section that does not exist", put(sym.at + 40, n.to_le_bytes().to_vec()))
        }
        20 => {
            let s = &shs[some(having(&|s| s.ty == 4), t)?];
            let other: Vec<usize> = (0..shs.len() + 2).filter(|i| *i != s.link).collect();
            ("has relocations with symbols of another section", put(s.at + 40, (*t.pick(&other) as u32).to_le_bytes().to_vec()))
        }
        21 => {
            if sym.size < 48 {
                return None;
            }
            let k = t.range(1, sym.size / 24 - 1);
            let n = *t.pick(&[0xff00u16, 0xff01, 0xff03, 0xff1f, 0xff20, 0xfff0, 0xfff3, 0xfffe, 0xffff]);
            ("has a symbol in a place that has no meaning", put(sym.off + 24 * k + 6, n.to_le_bytes().to_vec()))
        }
        0 => ("is for another machine", put(18, t.pick(&[3u16, 183, 243, 8, 0, 40, 21, 258]).to_le_bytes().to_vec())),
        1 => ("is for 32-bit programs", put(4, vec![1])),
        2 => ("is in the other byte order", put(5, vec![2])),
        3 => {
            // what is named explicitly may be a library
            let other: &[u16] = if base == 0 { &[2, 4, 0, 0xfe00] } else { &[2, 3, 4, 0, 0xfe00] };
            ("is no object file", put(16, t.pick(other).to_le_bytes().to_vec()))
        }
        4 | 5 => {
            let end = shs.iter().filter(|s| s.ty != 8 && s.size > 0).map(|s| s.off + s.size).chain(shs.iter().map(|s| s.at + 64)).max().unwrap();
            let cut = match t.below(4) {
                0 => end - 1,
                1 => t.range(1, 64),
                2 => shs[t.below(shs.len())].off.clamp(1, end - 1),
                _ => t.range(1, end - 1),
            };
            ("is cut short", Op::Cut(base + cut))
        }
        6 => {
            let s = &shs[some(having(&|s| content(s) && s.ty != 8), t)?];
            // whatever comes next, it doesn't end inside the file
            if t.chance(50) && s.size > 0 {
                ("has a section outside of the file", put(s.at + 24, beyond(t, (b.len() - s.size + 1) as u64, 1 << 62).to_le_bytes().to_vec()))
            } else {
                ("has a section that goes on behind the file", put(s.at + 32, beyond(t, (b.len() - s.off + 1) as u64, 1 << 62).to_le_bytes().to_vec()))
            }
        }
        7 => {
            let s = &shs[some(having(&content), t)?];
            let shstr = &shs[rd16(&b, 62).unwrap() as usize];
            ("has a section without a name", put(s.at, (beyond(t, shstr.size as u64, u32::MAX as u64) as u32).to_le_bytes().to_vec()))
        }
        8 => {
            let k = t.range(1, (sym.size / 24 - 1).max(1));
            if sym.size < 48 {
                return None;
            }
            let n = beyond(t, shs[sym.link].size as u64, u32::MAX as u64) as u32;
            ("has a symbol without a name", put(sym.off + 24 * k, n.to_le_bytes().to_vec()))
        }
        9 | 10 => {
            if sym.size < 48 {
                return None;
            }
            let k = t.range(1, sym.size / 24 - 1);
            let n = beyond(t, shs.len() as u64, 0xfeff) as u16;
            ("has a symbol in a section that does not exist", put(sym.off + 24 * k + 6, n.to_le_bytes().to_vec()))
        }
        11 => {
            let s = &shs[some(having(&content), t)?];
            let v = *t.pick(&[3u64, 12, 6, 24, 48, 100, 4095, 4097, 1 << 62 | 1, u64::MAX]);
            ("has an alignment that is no power of two", put(s.at + 48, v.to_le_bytes().to_vec()))
        }
        12 => {
            let (i, k) = rela(t, true)?;
            let n = beyond(t, (sym.size / 24) as u64, u32::MAX as u64) as u32;
            ("has a relocation with a symbol that does not exist", put(shs[i].off + 24 * k + 12, n.to_le_bytes().to_vec()))
        }
        13 => {
            let (i, k) = rela(t, false)?;
            let size = shs[shs[i].info].size;
            let at = shs[i].off + 24 * k;
            let width = if rd32(&b, at + 8).unwrap() == 1 { 8 } else { 4 };
            let first = (size + 1).saturating_sub(width) as u64;
            ("has a relocation outside of its section", put(at, beyond(t, first, 1 << 63).to_le_bytes().to_vec()))
        }
        14 => {
            let s = &shs[some(having(&|s| s.ty == 4), t)?];
            let n = beyond(t, shs.len() as u64, u32::MAX as u64) as u32;
            ("has relocations for a section that does not exist", put(s.at + 44, n.to_le_bytes().to_vec()))
        }
        _ => {
            // without addends, which this machine doesn't have
            let s = &shs[some(having(&|s| s.ty == 4), t)?];
            let mut h = b[s.at..s.at + 64].to_vec();
            h[4] = 9;
            h[56] = 16;
            h[32..40].copy_from_slice(&(s.size as u64 / 24 * 16).to_le_bytes());
            ("has relocations without addends", put(s.at, h))
        }
    };
    Some(Edit { file, what: what.into(), op })
}

pub fn eval(d: &Damage, env: &Env) -> Eval {
    let mut ev = Eval::default();
    let Some(e) = d.edits.first() else { return ev };
    clean(&env.dir);
    crate::damage::write(d, &env.dir);
    let o = run(&env.dld, &d.case.args(), &env.dir, &Limits::default(), &[]);
    *ev.labels.entry(LABELS.iter().find(|l| e.what.ends_with(**l)).copied().unwrap_or("others")).or_insert(0) += 1;
    if let Some(s) = o.signal {
        ev.fails.push(format!("[signal] the linker ends with signal {}: {} {}: {}", s, e.file, e.what, o.brief()));
    } else if o.ok() {
        ev.fails.push(format!("[accepted] the link succeeds although {} {} ({:x?})", e.file, e.what, e.op));
    } else if let Some(x) = leftover(env) {
        ev.fails.push(format!("[left] {} {}: {}", e.file, e.what, x));
    }
    ev.nontrivial = true;
    ev
}

const LABELS: &[&str] = &[
    "for another machine",
    "for 32-bit programs",
    "in the other byte order",
    "is no object file",
    "is no shared library",
    "is cut short",
    "has a section outside of the file",
    "has a section that goes on behind the file",
    "has a section without a name",
    "has a symbol without a name",
    "has a symbol in a section that does not exist",
    "has an alignment that is no power of two",
    "has a relocation with a symbol that does not exist",
    "has a relocation outside of its section",
    "has relocations for a section that does not exist",
    "has relocations without addends",
    "has section names in a section that does not exist",
    "has section headers outside of the file",
    "has section headers of another size",
    "has symbol names in a section that does not exist",
    "has relocations with symbols of another section",
    "has a symbol in a place that has no meaning",
];
