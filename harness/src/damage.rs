//! Damaged inputs: valid files with fields, bytes or whole stretches changed, cut off, or made up.
use crate::case::*;
use crate::gen::{self, Profile};
use crate::image::{rd16, rd32, rd64, Image};
use crate::props::*;
use crate::run::*;
use crate::tape::Tape;
use crate::verify;
use crate::write;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Put(usize, Vec<u8>),
    Cut(usize),
    /// bytes inserted
    Ins(usize, Vec<u8>),
    Del(usize, usize),
    All(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edit {
    pub file: String,
    pub what: String,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Damage {
    pub case: Case,
    pub edits: Vec<Edit>,
}

struct Field {
    off: usize,
    width: usize,
    what: String,
    ascii: bool,
}

fn elf_fields(b: &[u8], base: usize, out: &mut Vec<Field>) {
    let e = b.get(base..).unwrap_or(&[]);
    if e.len() < 64 || e[..4] != *b"\x7fELF" {
        return;
    }
    let mut add = |off: usize, width: usize, what: String| {
        if base + off + width <= b.len() {
            out.push(Field { off: base + off, width, what, ascii: false })
        }
    };
    for (o, w, n) in [(4, 1, "class"), (5, 1, "data"), (6, 1, "version"), (7, 1, "abi"), (16, 2, "e_type"), (18, 2, "e_machine"), (24, 8, "e_entry"), (32, 8, "e_phoff"), (40, 8, "e_shoff"), (48, 4, "e_flags"), (52, 2, "e_ehsize"), (54, 2, "e_phentsize"), (56, 2, "e_phnum"), (58, 2, "e_shentsize"), (60, 2, "e_shnum"), (62, 2, "e_shstrndx")] {
        add(o, w, n.into());
    }
    let (phoff, shoff) = (rd64(e, 32).unwrap() as usize, rd64(e, 40).unwrap() as usize);
    for i in 0..rd16(e, 56).unwrap() as usize {
        for (o, w, n) in [(0, 4, "p_type"), (4, 4, "p_flags"), (8, 8, "p_offset"), (16, 8, "p_vaddr"), (32, 8, "p_filesz"), (40, 8, "p_memsz"), (48, 8, "p_align")] {
            add(phoff + 56 * i + o, w, format!("segment {} {}", i, n));
        }
    }
    for i in 0..rd16(e, 60).unwrap() as usize {
        let h = shoff + 64 * i;
        for (o, w, n) in [(0, 4, "sh_name"), (4, 4, "sh_type"), (8, 8, "sh_flags"), (16, 8, "sh_addr"), (24, 8, "sh_offset"), (32, 8, "sh_size"), (40, 4, "sh_link"), (44, 4, "sh_info"), (48, 8, "sh_addralign"), (56, 8, "sh_entsize")] {
            add(h + o, w, format!("section {} {}", i, n));
        }
        let (Some(ty), Some(off), Some(size)) = (rd32(e, h + 4), rd64(e, h + 24), rd64(e, h + 32)) else { continue };
        let (off, size) = (off as usize, size as usize);
        let parts: (usize, &[(usize, usize, &str)]) = match ty {
            2 | 11 => (24, &[(0, 4, "st_name"), (4, 1, "st_info"), (5, 1, "st_other"), (6, 2, "st_shndx"), (8, 8, "st_value"), (16, 8, "st_size")]),
            4 => (24, &[(0, 8, "r_offset"), (8, 4, "r_type"), (12, 4, "r_sym"), (16, 8, "r_addend")]),
            6 => (16, &[(0, 8, "d_tag"), (8, 8, "d_val")]),
            5 | 17 | 0x6fff_fff6 => (4, &[(0, 4, "word")]),
            3 => (1, &[(0, 1, "string byte")]),
            _ => continue,
        };
        for k in 0..(size / parts.0).min(200) {
            for (o, w, n) in parts.1 {
                add(off + parts.0 * k + o, *w, format!("section {} entry {} {}", i, k, n));
            }
        }
    }
}

fn fields(b: &[u8]) -> Vec<Field> {
    let mut v = vec![];
    if b.starts_with(b"!<arch>\n") {
        let mut at = 8;
        while at + 60 <= b.len() {
            for (o, w, n) in [(0, 16, "ar_name"), (16, 12, "ar_date"), (28, 6, "ar_uid"), (34, 6, "ar_gid"), (40, 8, "ar_mode"), (48, 10, "ar_size"), (58, 2, "ar_fmag")] {
                v.push(Field { off: at + o, width: w, what: format!("member at {:#x} {}", at, n), ascii: true });
            }
            let size: usize = String::from_utf8_lossy(&b[at + 48..at + 58]).trim().parse().unwrap_or(0);
            if b[at..at + 16].starts_with(b"/ ") {
                for k in 0..size.min(200) / 4 {
                    v.push(Field { off: at + 60 + 4 * k, width: 4, what: format!("index word {}", k), ascii: false });
                }
            } else if b[at..at + 16].starts_with(b"#1/") {
                let len: usize = String::from_utf8_lossy(&b[at + 3..at + 16]).trim().parse().unwrap_or(0);
                let data = at + 60 + len;
                if b.get(at + 60..).is_some_and(|x| x.starts_with(b"__.SYMDEF")) {
                    for k in 0..size.saturating_sub(len).min(200) / 4 {
                        v.push(Field { off: data + 4 * k, width: 4, what: format!("index word {}", k), ascii: false });
                    }
                } else {
                    elf_fields(b, data, &mut v);
                }
            } else if b[at..at + 16].starts_with(b"__.SYMDEF ") {
                for k in 0..size.min(200) / 4 {
                    v.push(Field { off: at + 60 + 4 * k, width: 4, what: format!("index word {}", k), ascii: false });
                }
            } else {
                elf_fields(b, at + 60, &mut v);
            }
            at += 60 + size + size % 2;
        }
    } else {
        elf_fields(b, 0, &mut v);
    }
    v
}

fn files(c: &Case) -> Vec<(String, Vec<u8>)> {
    let bytes: Vec<Vec<u8>> = c.objs.iter().map(write::object).collect();
    let members: Vec<usize> = c.archives.iter().flat_map(|a| a.members.iter().map(|m| m.1)).collect();
    let mut v = vec![];
    for (i, b) in bytes.iter().enumerate() {
        if !members.contains(&i) {
            v.push((Case::obj_file(i), b.clone()));
        }
    }
    for (i, a) in c.archives.iter().enumerate() {
        v.push((Case::ar_file(i), write::archive(a, &c.objs, &bytes)));
    }
    for (i, l) in c.libs.iter().enumerate() {
        v.push((Case::lib_file(i), write::shared(i, l).0));
    }
    v
}

fn value(t: &mut Tape, b: &[u8], f: &Field, all: &[Field]) -> Vec<u8> {
    if f.ascii {
        let mut s = match t.below(7) {
            0 => vec![],
            1 => b"0".to_vec(),
            2 => b"99999999999999999999"[..f.width].to_vec(),
            3 => b"-1".to_vec(),
            4 => format!("{}", b.len() + t.below(100)).into_bytes(),
            5 => b"/12345".to_vec(),
            _ => (0..f.width).map(|_| t.below(256) as u8).collect(),
        };
        s.resize(f.width, b' ');
        return s;
    }
    let mut w = [0u8; 8];
    w[..f.width].copy_from_slice(&b[f.off..f.off + f.width]);
    let old = u64::from_le_bytes(w);
    let max = if f.width == 8 { u64::MAX } else { (1 << (8 * f.width)) - 1 };
    let len = b.len() as u64;
    let small = t.below(9) as u64;
    let v = match t.below(16) {
        0 => 0,
        1 => old.wrapping_add(1 + small),
        2 => old.wrapping_sub(1 + small),
        3 => max,
        4 => max >> 1,
        5 => (max >> 1) + 1,
        6 => len.wrapping_add(small).wrapping_sub(4),
        7 => old ^ 1 << t.below(8 * f.width),
        8 => small,
        9 => max - small,
        10 => {
            let g = t.pick(all);
            let mut w = [0u8; 8];
            w[..g.width.min(8)].copy_from_slice(&b[g.off..g.off + g.width.min(8)]);
            u64::from_le_bytes(w)
        }
        11 => 1 << t.below(8 * f.width),
        12 => *t.pick(&[0xfff1u64, 0xfff2, 0xffff, 0xff00, 0xfff0, 0xff02]),
        13 => t.below(40) as u64,
        14 => old.wrapping_mul(2),
        _ => t.raw64(),
    };
    v.to_le_bytes()[..f.width].to_vec()
}

pub fn gen(t: &mut Tape) -> Damage {
    let p = Profile { objs: (1, 3), secs: (1, 5), names: (1, 6), slots: (0, 5), archives: 30, libs: 40, init: 15, got: 20, odd: 8, nonalloc: 15, commons: 12, ..Default::default() };
    let c = gen::gen(t, &p);
    let fs = files(&c);
    let mut edits = vec![];
    let n = *t.pick(&[1, 1, 1, 2, 1, 3, 8]);
    let (mut name, mut b) = t.pick(&fs).clone();
    for i in 0..n {
        if i > 0 && t.chance(20) {
            let f = t.pick(&fs).clone();
            name = f.0;
            b = f.1;
        }
        let all = fields(&b);
        let mut push = |what: String, op: Op| edits.push(Edit { file: name.clone(), what, op });
        match t.below(20) {
            0 => push("cut off".into(), Op::Cut(t.below(b.len() + 1))),
            1 => {
                let n = t.range(1, 8);
                let at = t.below(b.len() + 1 - n.min(b.len()));
                let v = (0..n.min(b.len())).map(|_| t.below(256) as u8).collect();
                push("bytes".into(), Op::Put(at, v));
            }
            2 => {
                let n = t.range(1, 100);
                let v = (0..n).map(|_| if t.chance(50) { 0 } else { t.below(256) as u8 }).collect();
                push("inserted".into(), Op::Ins(t.below(b.len() + 1), v));
            }
            3 => {
                let at = t.below(b.len());
                push("deleted".into(), Op::Del(at, t.range(1, 200)));
            }
            4 => {
                // a stretch of another place
                let n = t.range(1, 200).min(b.len());
                let from = t.below(b.len() - n + 1);
                let to = t.below(b.len() - n + 1);
                push("copied".into(), Op::Put(to, b[from..from + n].to_vec()));
            }
            5 if t.chance(30) => {
                let magic: &[u8] = t.pick(&[&b""[..], b"\x7fELF", b"!<arch>\n", b"\x7fELF\x02\x01\x01", b"!<thin>\n", b"BC\xc0\xde"]);
                let mut v = magic.to_vec();
                for _ in 0..t.below(200) {
                    v.push(t.below(256) as u8);
                }
                push("made up".into(), Op::All(v));
            }
            6 => {
                // one stretch of zeros or ones
                let n = t.range(1, 300).min(b.len());
                let to = t.below(b.len() - n + 1);
                push("filled".into(), Op::Put(to, vec![if t.chance(50) { 0 } else { 255 }; n]));
            }
            _ => {
                if all.is_empty() {
                    continue;
                }
                // section headers and their like are few compared with symbols and relocations
                let mut f = t.pick(&all);
                if t.chance(40) {
                    let v: Vec<&Field> = all.iter().filter(|f| f.what.contains("sh_") || f.what.contains("e_") || f.what.contains("d_") || f.ascii).collect();
                    if !v.is_empty() {
                        f = *t.pick(&v);
                    }
                }
                let v = value(t, &b, f, &all);
                push(f.what.clone(), Op::Put(f.off, v));
            }
        }
    }
    Damage { case: c, edits }
}

pub fn write(d: &Damage, dir: &Path) {
    write_inputs(&d.case, dir);
    for e in &d.edits {
        let p = dir.join(&e.file);
        let Ok(mut b) = std::fs::read(&p) else { continue };
        match &e.op {
            Op::Put(at, v) => {
                for (i, x) in v.iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *x;
                    }
                }
            }
            Op::Cut(n) => b.truncate(*n),
            Op::Ins(at, v) => {
                let at = (*at).min(b.len());
                b.splice(at..at, v.iter().copied());
            }
            Op::Del(at, n) => {
                let at = (*at).min(b.len());
                let end = (at + n).min(b.len());
                b.drain(at..end);
            }
            Op::All(v) => b = v.clone(),
        }
        put(&p, &b);
    }
}

pub fn eval(d: &Damage, env: &Env) -> Eval {
    let mut ev = Eval::default();
    clean(&env.dir);
    write(d, &env.dir);
    let lim = Limits { cpu: 10, mem: 4 << 30, ignore_fsize: true, ..Default::default() };
    let o = run(&env.dld, &d.case.args(), &env.dir, &lim, &[]);
    let what: Vec<String> = d.edits.iter().map(|e| format!("{}: {}", e.file, e.what)).collect();
    if let Some(s) = o.signal {
        ev.fails.push(format!("[signal] the linker ends with signal {} for {:?}: {}", s, what, o.brief()));
        return ev;
    }
    *ev.labels.entry(if o.ok() { "damaged and linked" } else { "damaged and rejected" }).or_insert(0) += 1;
    let out = env.dir.join("out");
    if o.ok() {
        match std::fs::read(&out).map_err(|e| e.to_string()).and_then(Image::parse) {
            Err(e) => ev.fails.push(format!("[nonsense] {:?} is accepted, but the output is no executable: {}", what, e)),
            Ok(im) => {
                let mut f = vec![];
                verify::wellformed(&im, &mut f);
                // what the entry point refers to is up to the inputs
                f.retain(|x| !x.msg.starts_with("entry point"));
                ev.fails.extend(f.into_iter().take(5).map(|x| format!("[nonsense] {:?} is accepted, but {}: {}", what, x.aspect, x.msg)));
            }
        }
    } else if let Some(x) = leftover(env) {
        ev.fails.push(format!("[nonsense] {:?}: {}", what, x));
    }
    ev.nontrivial = !d.edits.is_empty();
    ev
}

pub fn smaller(d: &Damage) -> Vec<Damage> {
    (0..d.edits.len())
        .map(|i| {
            let mut d = d.clone();
            d.edits.remove(i);
            d
        })
        .collect()
}
