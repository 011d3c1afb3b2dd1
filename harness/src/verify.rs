//! The oracle: compares a linked executable with what the reference model says it must be.
use crate::case::*;
use crate::image::*;
use crate::model::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    pub aspect: &'static str,
    pub msg: String,
}

/// What a case exercised, for the evidence.
pub type Labels = BTreeMap<&'static str, u64>;

#[derive(Clone, Copy, Debug)]
pub struct Loc {
    pub addr: Option<u64>,
    pub foff: Option<u64>,
}

pub const LIB_BASE: u64 = 0x7f00_0000_0000;
pub const LIB_STEP: u64 = 0x1000_0000;
pub const DEFAULT_INTERP: &str = "/lib64/ld-linux-x86-64.so.2";

/// Structure of the file alone (also applied to whatever damaged inputs produce).
pub fn wellformed(im: &Image, out: &mut Vec<Fail>) {
    macro_rules! bad {
        ($m:expr) => {
            out.push(Fail { aspect: "elf", msg: $m })
        };
    }
    let flen = im.file.len() as u64;
    // extents
    let mut iv: Vec<(u64, u64, String)> = vec![(0, 64, "ELF header".into())];
    let add = |iv: &mut Vec<(u64, u64, String)>, o: u64, n: u64, s: String| {
        if n > 0 {
            iv.push((o, o.saturating_add(n), s))
        }
    };
    add(&mut iv, im.phoff, 56 * im.ph.len() as u64, "program header table".into());
    add(&mut iv, im.shoff, 64 * im.sh.len() as u64, "section header table".into());
    for s in im.sh.iter().skip(1) {
        add(&mut iv, s.off, s.fsize(), format!("section {}", s.sname));
    }
    iv.sort();
    for w in iv.windows(2) {
        if w[0].1 > w[1].0 {
            bad!(format!("{} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap in the file", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
        }
    }
    if let Some(l) = iv.iter().find(|i| i.1 > flen) {
        bad!(format!("{} reaches beyond the end of the file", l.2));
    }
    if im.sh[0].ty != 0 || im.sh[0].addr != 0 || im.sh[0].size != 0 || im.sh[0].off != 0 {
        bad!("section 0 is not the null section".into());
    }
    // segments
    let loads: Vec<&Phdr> = im.ph.iter().filter(|p| p.ty == 1).collect();
    if loads.is_empty() {
        bad!("no loadable segment".into());
    }
    let page = |a: u64| a & !0xfff;
    for p in &loads {
        if p.filesz > p.memsz {
            bad!(format!("segment at {:#x} has more file than memory", p.vaddr));
        }
        if p.align != 0 && !p.align.is_power_of_two() {
            bad!(format!("segment at {:#x} has alignment {:#x}", p.vaddr, p.align));
        } else if p.vaddr % p.align.max(0x1000) != p.off % p.align.max(0x1000) {
            bad!(format!("segment address {:#x} and offset {:#x} are not congruent", p.vaddr, p.off));
        }
        if p.flags & 4 == 0 {
            bad!(format!("segment at {:#x} is not readable", p.vaddr));
        }
        if p.vaddr < 0x1000 {
            bad!("segment at the null page".into());
        }
    }
    for w in loads.windows(2) {
        if w[0].vaddr > w[1].vaddr {
            bad!("loadable segments are not in ascending order".into());
        } else if w[0].memsz > 0 && w[1].memsz > 0 && page(w[0].vaddr + w[0].memsz - 1) >= page(w[1].vaddr) {
            bad!(format!("segments at {:#x} (size {:#x}) and {:#x} share a page", w[0].vaddr, w[0].memsz, w[1].vaddr));
        }
    }
    for (i, p) in im.ph.iter().enumerate() {
        if [2, 3, 6].contains(&p.ty) && im.ph.iter().filter(|q| q.ty == p.ty).count() > 1 {
            bad!(format!("program header {} is a second one of type {}", i, p.ty));
        }
        if p.ty == 6 {
            if im.ph[..i].iter().any(|q| q.ty == 1) {
                bad!("PT_PHDR after a loadable segment".into());
            }
            if p.off != im.phoff || p.filesz != 56 * im.ph.len() as u64 || p.memsz != p.filesz {
                bad!("PT_PHDR does not describe the program header table".into());
            }
        }
        if p.ty == 3 && im.ph[..i].iter().any(|q| q.ty == 1) {
            bad!("PT_INTERP after a loadable segment".into());
        }
        if [2, 3, 6].contains(&p.ty) {
            let covered = loads.iter().any(|l| {
                p.vaddr >= l.vaddr && p.vaddr + p.memsz <= l.vaddr + l.memsz && p.vaddr - l.vaddr == p.off.wrapping_sub(l.off) && p.off + p.filesz <= l.off + l.filesz
            });
            if !covered {
                bad!(format!("segment of type {} at {:#x} is not part of a loadable segment at matching offset", p.ty, p.vaddr));
            }
            if p.filesz != p.memsz {
                bad!(format!("segment of type {}: file and memory sizes differ", p.ty));
            }
        }
    }
    // sections
    let mut va: Vec<(u64, u64, &str)> = vec![];
    for s in im.sh.iter().skip(1) {
        if s.align != 0 && !s.align.is_power_of_two() {
            bad!(format!("section {} has alignment {:#x}", s.sname, s.align));
        } else if s.align > 1 && s.addr % s.align != 0 {
            out.push(Fail { aspect: "align", msg: format!("section {} at {:#x} is not aligned to its own {:#x}", s.sname, s.addr, s.align) });
            continue;
        }
        if !s.alloc() {
            if s.addr != 0 {
                bad!(format!("section {} is not loaded but has address {:#x}", s.sname, s.addr));
            }
            if s.fsize() > 0 && loads.iter().any(|l| s.off < l.off + l.filesz && l.off < s.off + s.fsize()) {
                out.push(Fail { aspect: "nonalloc", msg: format!("section {} is not allocated but lies in a loadable segment", s.sname) });
            }
            continue;
        }
        if s.size == 0 {
            continue;
        }
        va.push((s.addr, s.addr.saturating_add(s.size), &s.sname));
        let hits: Vec<&&Phdr> = loads.iter().filter(|l| s.addr < l.vaddr + l.memsz && l.vaddr < s.addr.saturating_add(s.size)).collect();
        if hits.len() != 1 {
            bad!(format!("section {} [{:#x},{:#x}) lies in {} loadable segments", s.sname, s.addr, s.addr.saturating_add(s.size), hits.len()));
            continue;
        }
        let l = hits[0];
        if s.addr < l.vaddr || s.addr + s.size > l.vaddr + l.memsz {
            bad!(format!("section {} [{:#x},{:#x}) sticks out of its segment [{:#x},{:#x})", s.sname, s.addr, s.addr + s.size, l.vaddr, l.vaddr + l.memsz));
        } else if s.ty == 8 {
            if s.addr < l.vaddr + l.filesz {
                out.push(Fail { aspect: "nobits", msg: format!("section {} at {:#x} has no file contents but its segment has some there (up to {:#x})", s.sname, s.addr, l.vaddr + l.filesz) });
            }
        } else if s.off < l.off || s.off - l.off != s.addr - l.vaddr || s.off + s.size > l.off + l.filesz {
            bad!(format!("section {} at offset {:#x}, address {:#x} does not match its segment (offset {:#x}+{:#x}, address {:#x})", s.sname, s.off, s.addr, l.off, l.filesz, l.vaddr));
        }
        if (s.flags & W != 0) != (l.flags & 2 != 0) || (s.flags & X != 0) != (l.flags & 1 != 0) {
            out.push(Fail { aspect: "prot", msg: format!("section {} has flags {:#x} but its segment {:#x}", s.sname, s.flags, l.flags) });
        }
    }
    va.sort();
    for w in va.windows(2) {
        if w[0].1 > w[1].0 {
            bad!(format!("sections {} and {} overlap in memory", w[0].2, w[1].2));
        }
    }
    let mut seen = HashSet::new();
    for (i, s) in im.sh.iter().enumerate().skip(1) {
        if s.sname.is_empty() || !seen.insert(s.sname.clone()) {
            bad!(format!("section {} has an empty or repeated name `{}`", i, s.sname));
        }
        let link_ty = im.sh.get(s.link as usize).map(|l| l.ty);
        let (want, ent): (Option<u32>, u64) = match s.ty {
            2 | 11 => (Some(3), 24),
            6 => (Some(3), 16),
            4 => (Some(11), 24),
            5 => (Some(11), 4),
            0x6fff_fff6 => (Some(11), 0),
            _ => (None, 0),
        };
        if s.ty == 17 || s.flags & GROUP != 0 && !im.sh.iter().any(|g| g.ty == 17) {
            bad!(format!("section {} (type {:#x}, flags {:#x}) has to do with section groups, which an executable does not have", s.sname, s.ty, s.flags));
        }
        if want.is_none() && s.link != 0 && s.flags & LINK_ORDER == 0 {
            bad!(format!("section {} (type {:#x}) links to section {}, though such sections have no link", s.sname, s.ty, s.link));
        }
        if s.link as usize >= im.sh.len() {
            bad!(format!("section {} links to section {} of {}", s.sname, s.link, im.sh.len()));
        } else if want.is_some() && link_ty != want {
            bad!(format!("section {} (type {:#x}) links to section {} of type {:?}", s.sname, s.ty, s.link, link_ty));
        }
        if ent != 0 && (s.ent != ent || s.size % ent != 0) {
            bad!(format!("section {} has entry size {} and size {:#x}", s.sname, s.ent, s.size));
        }
    }
    if im.sh.iter().filter(|s| s.ty == 2).count() > 1 || im.sh.iter().filter(|s| s.ty == 11).count() > 1 {
        bad!("more than one symbol table of a kind".into());
    }
    // (an entry point of 0 means that there is none)
    if im.entry != 0 && !loads.iter().any(|l| l.flags & 1 != 0 && im.entry >= l.vaddr && im.entry < l.vaddr + l.memsz) {
        bad!(format!("entry point {:#x} is not in an executable segment", im.entry));
    }
}

pub fn rel_window(r: &Rel) -> (u64, u64) {
    match r.kind {
        R_64 => (r.off, 8),
        R_NONE => (r.off, 0),
        R_GOTPCREL => (r.off - 3, 7),
        R_GOTPCRELX => (r.off - 2, 6),
        R_REX_GOTPCRELX => (r.off - 3, 7),
        _ => (r.off, 4),
    }
}

enum Want {
    /// the symbol's address
    Val(u64),
    Func { lib: usize, exp: usize },
    Data { lib: usize, exp: usize },
    /// start or end of an array that does not exist
    NoArray(&'static str),
    Skip,
}

pub struct Verifier<'a> {
    c: &'a Case,
    m: &'a Model,
    im: &'a Image,
    mem: &'a Mem,
    locs: HashMap<(usize, usize), Loc>,
    /// addresses of names that only common symbols define
    commons: HashMap<String, u64>,
    /// bounds of a missing .init_array or .fini_array, modulo 2^32
    no_array: HashMap<&'static str, u64>,
    pub fails: Vec<Fail>,
    pub labels: Labels,
}

/// A section is loaded as soon as any linked part of that name is.
fn settle<'a>(c: &'a Case, m: &Model) -> std::borrow::Cow<'a, Case> {
    let loaded: HashSet<&str> = m.loaded.iter().flat_map(|o| &c.objs[*o].secs).filter(|s| s.alloc()).map(|s| s.name.as_str()).collect();
    let late = |s: &Sec| !s.alloc() && loaded.contains(s.name.as_str());
    if !m.loaded.iter().any(|o| c.objs[*o].secs.iter().any(late)) {
        return std::borrow::Cow::Borrowed(c);
    }
    let mut d = c.clone();
    for s in m.loaded.iter().flat_map(|o| c.objs[*o].secs.iter().enumerate().map(move |(i, s)| (*o, i, s))).filter(|x| late(x.2)) {
        d.objs[s.0].secs[s.1].flags |= A;
    }
    std::borrow::Cow::Owned(d)
}

pub fn verify(c: &Case, m: &Model, file: Vec<u8>, mode: Option<u32>, lib_offs: &[Vec<u64>]) -> (Vec<Fail>, Labels) {
    let im = match Image::parse(file) {
        Ok(i) => i,
        Err(e) => return (vec![Fail { aspect: "parse", msg: e }], Labels::new()),
    };
    let c = &*settle(c, m);
    let mut fails = vec![];
    if mode != Some(0o755) {
        fails.push(Fail { aspect: "elf", msg: format!("file mode {:o}, not 755", mode.unwrap_or(0)) });
    }
    wellformed(&im, &mut fails);
    let mem = Mem::load(&im);
    let mut v = Verifier { c, m, im: &im, mem: &mem, locs: HashMap::new(), commons: HashMap::new(), no_array: HashMap::new(), fails, labels: Labels::new() };
    v.locate();
    v.find_commons();
    v.contents();
    v.symtab();
    v.interp();
    let dy = dynamic(&im, &mem).unwrap_or_else(|e| {
        v.fail("dynamic", e);
        Dynamic::default()
    });
    v.dynamic(&dy);
    let libs = v.needed(&dy, lib_offs);
    v.hashes(&dy);
    v.inits(&dy);
    v.refs(&dy, libs, lib_offs);
    (v.fails, v.labels)
}

/// The contributions located in an output, and nothing else.
fn located<'a>(c: &'a Case, m: &'a Model, im: &'a Image, mem: &'a Mem) -> Verifier<'a> {
    let mut v = Verifier { c, m, im, mem, locs: HashMap::new(), commons: HashMap::new(), no_array: HashMap::new(), fails: vec![], labels: Labels::new() };
    v.locate();
    v.find_commons();
    v
}

/// The symbol value and the place of relocated fields.
pub fn values(c: &Case, m: &Model, file: Vec<u8>, fields: &[(usize, usize, usize)]) -> Vec<Option<(u64, u64)>> {
    let Ok(im) = Image::parse(file) else { return vec![None; fields.len()] };
    let mem = Mem::load(&im);
    let c = &*settle(c, m);
    let v = located(c, m, &im, &mem);
    fields
        .iter()
        .map(|(o, s, r)| {
            let rel = &c.objs[*o].secs[*s].rels[*r];
            let p = v.sec_value(*o, *s)?.wrapping_add(rel.off);
            let val = match rel.tgt {
                Tgt::Null => 0,
                Tgt::Sec(t) => v.sec_value(*o, t)?,
                Tgt::Sym(k) => match m.res_of(c, *o, k) {
                    Res::Def { obj, sym } => v.def_value(obj, sym)?,
                    Res::Common { .. } => *v.commons.get(&c.objs[*o].syms[k].name)?,
                    Res::WeakZero => 0,
                    _ => return None,
                },
            };
            Some((val, p))
        })
        .collect()
}

/// Whether the word `off` bytes from the global offset table is a GOT slot that holds `value`.
pub fn got_slot(file: Vec<u8>, off: i64, value: u64) -> Result<(), String> {
    let im = Image::parse(file)?;
    let mem = Mem::load(&im);
    let base = im.sh.iter().find(|s| s.sname == ".got.plt").map(|s| s.addr).ok_or("there is no .got.plt")?;
    let at = base.wrapping_add(off as u64);
    if at % 8 != 0 || !im.sh.iter().any(|s| [".got", ".got.plt"].contains(&s.sname.as_str()) && at >= s.addr && at + 8 <= s.addr + s.size) {
        return Err(format!("{:#x} is not a slot of the global offset table", at));
    }
    match mem.get(at, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) {
        Some(v) if v == value => Ok(()),
        v => Err(format!("the slot at {:#x} holds {:x?} and not {:#x}", at, v, value)),
    }
}

/// The bytes of a field in the output.
pub fn field(c: &Case, m: &Model, file: Vec<u8>, o: usize, s: usize, off: u64, n: u64) -> Option<Vec<u8>> {
    let im = Image::parse(file).ok()?;
    let mem = Mem::load(&im);
    let c = &*settle(c, m);
    let v = located(c, m, &im, &mem);
    let l = v.locs.get(&(o, s))?;
    match l.addr {
        Some(a) => mem.get(a + off, n),
        None => im.file.get((l.foff? + off) as usize..(l.foff? + off + n) as usize).map(|b| b.to_vec()),
    }
}

impl<'a> Verifier<'a> {
    fn fail(&mut self, aspect: &'static str, msg: String) {
        if self.fails.len() < 60 {
            self.fails.push(Fail { aspect, msg })
        }
    }
    fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    fn sec(&self, o: usize, s: usize) -> &'a Sec {
        &self.c.objs[o].secs[s]
    }
    fn what(&self, o: usize, s: usize) -> String {
        format!("{}({})", Case::obj_file(o), self.c.objs[o].secs[s].name)
    }
    fn loaded_secs(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for o in &self.m.loaded {
            for s in 0..self.c.objs[*o].secs.len() {
                v.push((*o, s));
            }
        }
        v
    }
    /// output section holding address `a`
    fn out_sec(&self, a: u64, n: u64) -> Option<usize> {
        (1..self.im.sh.len()).find(|i| {
            let s = &self.im.sh[*i];
            s.alloc() && a >= s.addr && a + n <= s.addr + s.size
        })
    }

    fn locate(&mut self) {
        let f = &self.im.file;
        let mut found: HashMap<[u8; 8], Vec<u64>> = HashMap::new();
        let mut i = 0;
        while i + 8 <= f.len() {
            match f[i..f.len() - 7].iter().position(|b| *b == 0xd1) {
                None => break,
                Some(k) => {
                    i += k;
                    if f[i + 1] == 0xdc && f[i + 2] == 0xc0 {
                        let t: [u8; 8] = f[i..i + 8].try_into().unwrap();
                        found.entry(t).or_default().push(i as u64);
                    }
                    i += 1;
                }
            }
        }
        for o in 0..self.c.objs.len() {
            let loaded = self.m.loaded.contains(&o);
            for s in 0..self.c.objs[o].secs.len() {
                let sec = self.sec(o, s);
                let Some(t) = sec.tag else { continue };
                let hits = found.get(&tag_bytes(o, s)).cloned().unwrap_or_default();
                if !loaded {
                    if !hits.is_empty() {
                        let w = self.what(o, s);
                        self.fail("archive", format!("{} is in the output although its archive member is not needed", w));
                    }
                    continue;
                }
                let asp = if sec.alloc() { "content" } else { "nonalloc" };
                if hits.len() != 1 {
                    let w = self.what(o, s);
                    let a = if hits.is_empty() && !self.m.explicit.contains(&o) { "archive" } else { asp };
                    self.fail(a, format!("{} appears {} times in the output", w, hits.len()));
                    if a != asp {
                        self.fail(asp, format!("{} appears {} times in the output", w, hits.len()));
                    }
                    continue;
                }
                let Some(foff) = hits[0].checked_sub(t) else {
                    let w = self.what(o, s);
                    self.fail(asp, format!("{} starts before the file", w));
                    continue;
                };
                let ph: Vec<&Phdr> = self.im.ph.iter().filter(|p| p.ty == 1 && hits[0] >= p.off && hits[0] < p.off + p.filesz).collect();
                let addr = if ph.len() == 1 { Some((ph[0].vaddr + foff).wrapping_sub(ph[0].off)) } else { None };
                if sec.alloc() {
                    if addr.is_none() {
                        let w = self.what(o, s);
                        self.fail("content", format!("{} is in {} loadable segments", w, ph.len()));
                        continue;
                    }
                    self.locs.insert((o, s), Loc { addr, foff: Some(foff) });
                } else {
                    self.locs.insert((o, s), Loc { addr: None, foff: Some(foff) });
                }
            }
        }
        // sections without a fingerprint: through a stored pointer to them
        for (o, s) in self.loaded_secs() {
            let Some(l) = self.locs.get(&(o, s)).copied() else { continue };
            let Some(addr) = l.addr else { continue };
            for r in &self.sec(o, s).rels {
                if let (Tgt::Sec(t), R_64, 0) = (&r.tgt, r.kind, r.addend) {
                    if self.sec(o, *t).alloc() && !self.locs.contains_key(&(o, *t)) {
                        if let Some(v) = self.mem.u64(addr + r.off) {
                            self.locs.insert((o, *t), Loc { addr: Some(v), foff: None });
                        }
                    }
                }
            }
        }
    }

    fn find_commons(&mut self) {
        let Some(Ok(syms)) = self.im.sh.iter().find(|s| s.ty == 2).map(|t| self.im.symbols(t)) else { return };
        let mut iv: Vec<(u64, u64, String)> = vec![];
        for (n, r) in &self.m.names {
            let Res::Common { size, align, .. } = r.res else { continue };
            let Some(s) = syms.iter().find(|s| s.name == *n && s.info >> 4 != LOCAL) else { continue };
            self.label("common symbols");
            self.commons.insert(n.clone(), s.value);
            let mut bad = vec![];
            if align > 1 && s.value % align != 0 {
                bad.push(format!("is not aligned to {}", align));
            }
            match self.mem.seg(s.value, size.max(1)) {
                Some(g) if g.flags & 3 == 2 => {}
                _ => bad.push("is not in writable data".into()),
            }
            if size > 0 && self.mem.nonzero(s.value, size).is_some() {
                bad.push("is not zero".into());
            }
            let near = self.m.loaded.iter().flat_map(|o| &self.c.objs[*o].syms).any(|s| s.name == *n && s.bind != LOCAL && matches!(s.place, Place::Common(_)));
            // unless everything is
            let near = near && !self.loaded_secs().into_iter().any(|(o, k)| self.sec(o, k).name == ".bss" && self.sec(o, k).flags & LARGE != 0);
            if near && self.im.sh.get(s.shndx as usize).map_or(false, |h| h.flags & LARGE != 0) {
                bad.push("is among what may be out of reach".into());
            }
            for b in bad {
                for asp in ["nobits", "common"] {
                    self.fail(asp, format!("common `{}` at {:#x}+{:#x} {}", n, s.value, size, b));
                }
            }
            iv.push((s.value, s.value + size, format!("common `{}`", n)));
        }
        if iv.is_empty() {
            return;
        }
        for (o, s) in self.loaded_secs() {
            if let Some(Loc { addr: Some(a), .. }) = self.locs.get(&(o, s)) {
                iv.push((*a, *a + self.sec(o, s).size, self.what(o, s)));
            }
        }
        for s in &self.im.sh {
            if s.alloc() && s.ty != 8 && s.size > 0 {
                iv.push((s.addr, s.addr + s.size, format!("output section {}", s.sname)));
            }
        }
        iv.retain(|i| i.0 < i.1);
        iv.sort();
        let mut top: Option<(u64, String)> = None;
        for i in iv {
            let common = |s: &str| s.starts_with("common `");
            if let Some((end, n)) = &top {
                if i.0 < *end && (common(n) || common(&i.2)) {
                    for asp in ["nobits", "common"] {
                        self.fail(asp, format!("{} and {} overlap", n, i.2));
                    }
                }
            }
            if top.as_ref().map_or(true, |t| i.1 > t.0) {
                top = Some((i.1, i.2));
            }
        }
    }

    /// What same-named loaded sections are taken together: (flags, whether any has contents).
    fn joined(&self, name: &str) -> (u64, bool) {
        let mut f = 0;
        let mut data = false;
        for o in &self.m.loaded {
            for s in &self.c.objs[*o].secs {
                if s.name == name && s.alloc() {
                    f |= s.flags;
                    data |= !s.nobits() && s.size > 0;
                }
            }
        }
        (f, data)
    }

    fn contents(&mut self) {
        let mut iv: Vec<(u64, u64, usize, usize)> = vec![];
        for (o, s) in self.loaded_secs() {
            let sec = self.sec(o, s);
            let what = self.what(o, s);
            let Some(l) = self.locs.get(&(o, s)).copied() else {
                if sec.size > 0 {
                    self.label("sections not located");
                }
                continue;
            };
            if !sec.alloc() {
                self.nonalloc(o, s, l.foff.unwrap());
                continue;
            }
            let addr = l.addr.unwrap();
            if sec.size == 0 {
                // a place without anything, known from a pointer to it
                if l.foff.is_none() {
                    self.label("empty sections");
                    if sec.align > 1 && addr % sec.align != 0 {
                        self.fail("align", format!("{}, which is empty, is at {:#x}, not aligned to {:#x}", what, addr, sec.align));
                    }
                }
                continue;
            }
            self.label("sections compared");
            if sec.align > 1 && addr % sec.align != 0 {
                self.fail("align", format!("{} is at {:#x}, not aligned to {:#x}", what, addr, sec.align));
            }
            if sec.align > 16 {
                self.label("sections aligned to more than 16");
            }
            let outs = match self.out_sec(addr, sec.size) {
                None => {
                    self.fail("content", format!("{} at {:#x}+{:#x} is in no allocated output section", what, addr, sec.size));
                    if sec.nobits() {
                        self.fail("nobits", format!("{} at {:#x}+{:#x} is in no allocated output section", what, addr, sec.size));
                    }
                    continue;
                }
                Some(i) => &self.im.sh[i],
            };
            if outs.align < sec.align {
                self.fail("align", format!("output section {} has alignment {:#x}, its contribution {} has {:#x}", outs.sname, outs.align, what, sec.align));
            }
            match self.mem.seg(addr, sec.size) {
                None => {
                    self.fail("content", format!("{} at {:#x}+{:#x} is not in memory", what, addr, sec.size));
                    continue;
                }
                Some(g) => {
                    let (w, x) = (g.flags & 2 != 0, g.flags & 1 != 0);
                    let want = self.joined(&sec.name).0;
                    if w != (want & W != 0) || x != (want & X != 0) {
                        self.fail("prot", format!("{} has flags {:#x} but lies in memory with flags {:#x}", what, want, g.flags));
                    }
                }
            }
            iv.push((addr, addr + sec.size, o, s));
            if sec.nobits() {
                self.label("zero-initialised sections");
                if let Some(i) = self.mem.nonzero(addr, sec.size) {
                    self.fail("nobits", format!("{}+{:#x} is not zero", what, i));
                }
                if outs.ty != NOBITS && !self.joined(&sec.name).1 {
                    self.fail("nobits", format!("{} ended up in {}, which has file contents", what, outs.sname));
                }
                continue;
            }
            let got = self.mem.get(addr, sec.size).unwrap();
            let mut mask = vec![false; sec.size as usize];
            for r in &sec.rels {
                let (a, n) = rel_window(r);
                for i in a..a + n {
                    mask[i as usize] = true;
                }
            }
            if let Some(i) = (0..sec.size as usize).find(|i| !mask[*i] && got[*i] != sec.data[*i]) {
                self.fail("content", format!("{}+{:#x}: byte {:#04x} became {:#04x}", what, i, sec.data[i], got[i]));
                if (i..i + 8).chain(i.saturating_sub(8)..i).any(|k| mask.get(k) == Some(&true)) {
                    self.fail("near", format!("{}+{:#x}: byte {:#04x} next to a relocated field became {:#04x}", what, i, sec.data[i], got[i]));
                }
            }
            if outs.ty == NOBITS {
                self.fail("content", format!("{} ended up in {}, which has no file contents", what, outs.sname));
            }
        }
        iv.sort();
        for w in iv.windows(2) {
            if w[0].1 > w[1].0 {
                let m = format!("{} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap", self.what(w[0].2, w[0].3), w[0].0, w[0].1, self.what(w[1].2, w[1].3), w[1].0, w[1].1);
                self.fail("overlap", m.clone());
                if self.sec(w[0].2, w[0].3).nobits() || self.sec(w[1].2, w[1].3).nobits() {
                    self.fail("nobits", m);
                }
            }
        }
        // order and company of same-named contributions
        let mut by_name: BTreeMap<&str, Vec<(u64, u64, usize, usize)>> = BTreeMap::new();
        for o in &self.m.explicit {
            for (s, sec) in self.c.objs[*o].secs.iter().enumerate() {
                if let Some(l) = self.locs.get(&(*o, s)) {
                    if sec.size > 0 {
                        if let Some(a) = l.addr.or(l.foff) {
                            by_name.entry(&sec.name).or_default().push((a, sec.size, *o, s));
                        }
                    }
                }
            }
        }
        self.gaps();
        for (n, v) in by_name {
            for w in v.windows(2) {
                if w[0].2 != w[1].2 && w[0].0 >= w[1].0 {
                    let m = format!("{} [{:#x}] precedes {} [{:#x}] on the command line but not in {}", self.what(w[0].2, w[0].3), w[0].0, self.what(w[1].2, w[1].3), w[1].0, n);
                    self.fail(if self.sec(w[0].2, w[0].3).alloc() { "order" } else { "nonalloc" }, m);
                }
            }
        }
    }

    /// Between the contributions to a section that isn't code there is nothing but zeros.
    fn gaps(&mut self) {
        let mut by_name: BTreeMap<&str, Option<Vec<(u64, u64)>>> = BTreeMap::new();
        for (o, s) in self.loaded_secs() {
            let sec = self.sec(o, s);
            let e = by_name.entry(&sec.name).or_insert_with(|| Some(vec![]));
            match self.locs.get(&(o, s)).and_then(|l| l.addr.or(l.foff)) {
                _ if sec.size == 0 => {}
                Some(a) => {
                    if let Some(v) = e {
                        v.push((a, a + sec.size))
                    }
                }
                // it could be in any gap
                None => *e = None,
            }
        }
        for (n, v) in by_name {
            let (Some(mut v), Some(outs)) = (v, self.im.section(n)) else { continue };
            if outs.ty == NOBITS || outs.flags & X != 0 || n.contains("i_array") || n.contains("it_array") {
                continue;
            }
            let start = if outs.alloc() { outs.addr } else { outs.off };
            v.push((start, start));
            v.sort();
            let mut end = start;
            for (a, z) in v {
                if a < start || z > start + outs.size {
                    break;
                }
                if a > end {
                    let at = (outs.off + (end - start)) as usize;
                    let gap = self.im.file.get(at..at + (a - end) as usize).unwrap_or(&[]);
                    if let Some(i) = gap.iter().position(|b| *b != 0) {
                        let asp = if outs.alloc() { "content" } else { "nonalloc" };
                        self.fail(asp, format!("{:#x} bytes into {}, between contributions to it, there is {:#04x}", end - start + i as u64, n, gap[i]));
                    }
                }
                end = end.max(z);
            }
        }
    }

    fn nonalloc(&mut self, o: usize, s: usize, foff: u64) {
        let sec = self.sec(o, s);
        let what = self.what(o, s);
        self.label("non-loaded sections");
        let Some(outs) = self.im.section(&sec.name) else {
            self.fail("nonalloc", format!("no output section {}", sec.name));
            return;
        };
        if outs.alloc() || foff < outs.off || foff + sec.size > outs.off + outs.fsize() {
            self.fail("nonalloc", format!("{} at file offset {:#x} is not inside output section {} (which must not be loaded)", what, foff, sec.name));
            return;
        }
        if sec.align > 1 && (foff - outs.off) % sec.align != 0 {
            self.fail("nonalloc", format!("{} is at offset {:#x} of {}, not a multiple of {:#x}", what, foff - outs.off, sec.name, sec.align));
        }
        let got = &self.im.file[foff as usize..(foff + sec.size) as usize];
        let mut mask = vec![false; sec.size as usize];
        for r in &sec.rels {
            let (a, n) = rel_window(r);
            for i in a..a + n {
                mask[i as usize] = true;
            }
        }
        if let Some(i) = (0..sec.size as usize).find(|i| !mask[*i] && got[*i] != sec.data[*i]) {
            self.fail("nonalloc", format!("{}+{:#x}: byte {:#04x} became {:#04x}", what, i, sec.data[i], got[i]));
        }
    }

    fn interp(&mut self) {
        let want = self.c.interp.clone().unwrap_or_else(|| DEFAULT_INTERP.into());
        match self.im.ph.iter().find(|p| p.ty == 3) {
            None => self.fail("elf", "no interpreter segment".into()),
            Some(p) => {
                let b = &self.im.file[p.off as usize..(p.off + p.filesz) as usize];
                let mut w = want.into_bytes();
                w.push(0);
                if b != &w[..] {
                    self.fail("elf", format!("interpreter is {:?}", String::from_utf8_lossy(b)));
                }
            }
        }
        if !self.im.ph.iter().any(|p| p.ty == 6) {
            self.fail("elf", "no PT_PHDR segment".into());
        }
        match self.m.names.get("_start").map(|r| r.res.clone()) {
            Some(Res::Def { obj, sym }) => {
                if let Some(v) = self.def_value(obj, sym) {
                    if self.im.entry != v {
                        self.fail("elf", format!("entry point is {:#x}, _start is {:#x}", self.im.entry, v));
                    }
                }
            }
            _ => {}
        }
    }

    /// final address of symbol `k` of object `o`, which is a definition
    fn def_value(&self, o: usize, k: usize) -> Option<u64> {
        match self.c.objs[o].syms[k].place {
            Place::Abs(v) => Some(v),
            Place::Sec(s, off) => self.sec_value(o, s).map(|a| a.wrapping_add(off)),
            Place::Common(_) | Place::Large(_) => self.commons.get(&self.c.objs[o].syms[k].name).copied(),
            _ => None,
        }
    }
    fn sec_value(&self, o: usize, s: usize) -> Option<u64> {
        let l = self.locs.get(&(o, s))?;
        if self.sec(o, s).alloc() {
            l.addr
        } else {
            // sh_addr is 0: the offset in the joined section
            let outs = self.im.section(&self.sec(o, s).name)?;
            l.foff?.checked_sub(outs.off)
        }
    }

    fn symtab(&mut self) {
        let Some(t) = self.im.sh.iter().find(|s| s.ty == 2) else {
            return self.fail("symtab", "no symbol table".into());
        };
        let syms = match self.im.symbols(t) {
            Ok(s) => s,
            Err(e) => return self.fail("symtab", e),
        };
        let first_global = syms.iter().position(|s| s.info >> 4 != LOCAL).unwrap_or(syms.len());
        if syms[first_global..].iter().any(|s| s.info >> 4 == LOCAL) {
            self.fail("symtab", "local symbol after a non-local one".into());
        }
        if t.info as usize != first_global {
            self.fail("symtab", format!("sh_info is {}, the first non-local symbol is {}", t.info, first_global));
        }
        match syms.first() {
            Some(s) if s.name.is_empty() && s.info == 0 && s.value == 0 && s.size == 0 && s.shndx == 0 => {}
            _ => self.fail("symtab", "symbol 0 is not the null symbol".into()),
        }
        for s in &syms {
            if s.shndx as usize >= self.im.sh.len() && s.shndx < 0xff00 {
                self.fail("symtab", format!("symbol {} names section {} of {}", s.name, s.shndx, self.im.sh.len()));
            }
        }
        let mut by_name: HashMap<&str, Vec<&DSym>> = HashMap::new();
        for s in &syms {
            by_name.entry(&s.name).or_default().push(s);
        }
        for (n, r) in &self.m.names {
            if let Res::Common { size, .. } = r.res {
                let cand: Vec<&&DSym> = by_name.get(&n[..]).map(|v| v.iter().filter(|s| s.info >> 4 != LOCAL).collect()).unwrap_or_default();
                match cand[..] {
                    [g] => {
                        let sec = self.out_sec(g.value, size);
                        if g.size != size || g.info != GLOBAL << 4 | T_OBJECT || Some(g.shndx as usize) != sec {
                            self.fail("symtab", format!("common `{}` has size {}, info {:#x}, section {}; expected size {}, section {:?}", n, g.size, g.info, g.shndx, size, sec));
                        }
                    }
                    _ => self.fail("symtab", format!("`{}` has {} non-local entries", n, cand.len())),
                }
                continue;
            }
            let Res::Def { obj, sym } = r.res else { continue };
            let d = &self.c.objs[obj].syms[sym];
            let Some(val) = self.def_value(obj, sym) else { continue };
            let cand: Vec<&&DSym> = by_name.get(&n[..]).map(|v| v.iter().filter(|s| s.info >> 4 != LOCAL).collect()).unwrap_or_default();
            if cand.len() != 1 {
                self.fail("symtab", format!("`{}` has {} non-local entries", n, cand.len()));
                continue;
            }
            let g = cand[0];
            self.label("global names compared with .symtab");
            if g.value != val {
                self.fail("symtab", format!("`{}` has value {:#x}, its definition in {} is at {:#x}", n, g.value, Case::obj_file(obj), val));
            }
            if g.size != d.size || g.info != d.bind << 4 | d.ty {
                self.fail("symtab", format!("`{}` has size {} and info {:#x}, its definition in {} has {} and {:#x}", n, g.size, g.info, Case::obj_file(obj), d.size, d.bind << 4 | d.ty));
            }
            let want = match d.place {
                Place::Abs(_) => 0xfff1,
                Place::Sec(s, _) => {
                    if !self.sec(obj, s).alloc() {
                        continue;
                    }
                    match self.locs.get(&(obj, s)).and_then(|l| self.out_sec(l.addr?, self.sec(obj, s).size)) {
                        Some(i) => i as u16,
                        None => continue,
                    }
                }
                _ => continue,
            };
            // (of several sections at one address, only names tell which an empty one belongs to)
            if let Place::Sec(s, _) = d.place {
                let sec = self.sec(obj, s);
                if sec.size == 0 && self.im.sh.get(g.shndx as usize).map_or(false, |x| x.alloc() && x.addr <= val && val <= x.addr + x.size) {
                    continue;
                }
            }
            if g.shndx != want {
                self.fail("symtab", format!("`{}` is in section {}, its definition is in {}", n, g.shndx, want));
            }
        }
        for o in &self.m.loaded {
            for (k, d) in self.c.objs[*o].syms.iter().enumerate() {
                if d.bind != LOCAL || d.ty == T_FILE || d.ty == 3 || d.name.is_empty() {
                    continue;
                }
                let Some(val) = self.def_value(*o, k) else { continue };
                self.label("local names compared with .symtab");
                if !by_name.get(&d.name[..]).map_or(false, |v| v.iter().any(|s| s.info >> 4 == LOCAL && s.value == val)) {
                    self.fail("symtab", format!("local `{}` of {} at {:#x} is missing", d.name, Case::obj_file(*o), val));
                }
            }
        }
    }

    fn dynamic(&mut self, dy: &Dynamic) {
        let Some(p) = self.im.ph.iter().find(|p| p.ty == 2) else { return };
        match self.im.sh.iter().find(|s| s.ty == 6) {
            None => self.fail("dynamic", "no dynamic section".into()),
            Some(s) => {
                if s.addr != p.vaddr || s.size != p.memsz {
                    self.fail("elf", "PT_DYNAMIC does not describe the dynamic section".into());
                }
                for i in dy.tags.len() as u64..s.size / 16 {
                    if self.mem.u64(s.addr + 16 * i) != Some(0) {
                        self.fail("dynamic", "entries after the null entry".into());
                    }
                }
            }
        }
        let mut seen = HashSet::new();
        for (t, _) in &dy.tags {
            if *t != DT_NEEDED && !seen.insert(*t) {
                self.fail("dynamic", format!("tag {:#x} appears twice", t));
            }
        }
        let sec = |ty: u32| self.im.sh.iter().find(|s| s.ty == ty);
        let mut errs = vec![];
        let mut expect = |what: &str, tag: u64, want: Option<u64>, required: bool| match (dy.get(tag), want) {
            (Some(v), Some(w)) if v == w => {}
            (None, None) => {}
            (None, Some(_)) if !required => {}
            (g, w) => errs.push(format!("{} is {:x?}, expected {:x?}", what, g, w)),
        };
        let dynsym = sec(11);
        let dynstr = dynsym.and_then(|s| self.im.sh.get(s.link as usize));
        expect("DT_SYMTAB", DT_SYMTAB, dynsym.map(|s| s.addr), true);
        expect("DT_SYMENT", DT_SYMENT, Some(24), true);
        expect("DT_STRTAB", DT_STRTAB, dynstr.map(|s| s.addr), true);
        expect("DT_STRSZ", DT_STRSZ, dynstr.map(|s| s.size), true);
        expect("DT_HASH", DT_HASH, sec(5).map(|s| s.addr), true);
        expect("DT_GNU_HASH", DT_GNU_HASH, sec(0x6fff_fff6).map(|s| s.addr), true);
        let relas: Vec<&Shdr> = self.im.sh.iter().filter(|s| s.ty == 4 && s.alloc() && s.size > 0).collect();
        let dynrel = (dy.get(DT_RELA).unwrap_or(0), dy.get(DT_RELASZ).unwrap_or(0));
        let pltrel = (dy.get(DT_JMPREL).unwrap_or(0), dy.get(DT_PLTRELSZ).unwrap_or(0));
        for s in &relas {
            if (s.addr, s.size) != dynrel && (s.addr, s.size) != pltrel {
                errs.push(format!("relocation section {} is announced by neither DT_RELA nor DT_JMPREL", s.sname));
            }
        }
        for (n, (a, z)) in [("DT_RELA", dynrel), ("DT_JMPREL", pltrel)] {
            if z > 0 && !relas.iter().any(|s| (s.addr, s.size) == (a, z)) {
                errs.push(format!("{} announces {:#x}+{:#x}, which is no relocation section", n, a, z));
            }
        }
        if dynrel.1 > 0 && dynrel == pltrel {
            errs.push("DT_RELA and DT_JMPREL announce the same table".into());
        }
        if dynrel.1 > 0 && dy.get(DT_RELAENT) != Some(24) {
            errs.push(format!("DT_RELAENT is {:?}", dy.get(DT_RELAENT)));
        }
        if pltrel.1 > 0 && dy.get(DT_PLTREL) != Some(DT_RELA) {
            errs.push(format!("DT_PLTREL is {:?}", dy.get(DT_PLTREL)));
        }
        if pltrel.1 > 0 && dy.get(DT_PLTGOT).is_none() {
            errs.push("no DT_PLTGOT".into());
        }
        if let Some(n) = dy.get(0x6fff_fff9) {
            let ok = (0..n).all(|i| self.mem.u64(dynrel.0 + 24 * i + 8).map(|x| x & 0xffff_ffff) == Some(8)) && n * 24 <= dynrel.1;
            if !ok {
                errs.push(format!("DT_RELACOUNT is {}", n));
            }
        }
        if let (Some(s), Some(a)) = (dynsym, dy.get(DT_SYMTAB)) {
            if s.addr == a {
                match self.im.symbols(s) {
                    Err(e) => errs.push(e),
                    Ok(v) => {
                        if v.first().map_or(true, |s| !s.name.is_empty() || s.value != 0 || s.info != 0) {
                            errs.push("dynamic symbol 0 is not the null symbol".into());
                        }
                        let fg = v.iter().position(|s| s.info >> 4 != LOCAL).unwrap_or(v.len());
                        if s.info as usize != fg || v[fg..].iter().any(|s| s.info >> 4 == LOCAL) {
                            errs.push(format!(".dynsym sh_info is {}, the first non-local symbol is {}", s.info, fg));
                        }
                        let mut names = HashSet::new();
                        for s in v.iter().skip(1) {
                            if !names.insert(&s.name[..]) {
                                errs.push(format!("dynamic symbol `{}` appears twice", s.name));
                            }
                        }
                    }
                }
            }
        }
        for e in errs {
            self.fail("dynamic", e);
        }
    }

    /// Checks DT_NEEDED and returns the libraries in the loader's search order.
    fn needed(&mut self, dy: &Dynamic, lib_offs: &[Vec<u64>]) -> Vec<(usize, HashMap<String, LibSym>)> {
        let strtab = dy.get(DT_STRTAB).unwrap_or(0);
        let interp = self.c.interp.clone().unwrap_or_else(|| DEFAULT_INTERP.into());
        let interp = interp.rsplit('/').next().unwrap().to_string();
        let mut listed = vec![];
        for off in dy.all(DT_NEEDED) {
            let Some(n) = self.mem.cstr(strtab.wrapping_add(off)) else {
                self.fail("needed", "DT_NEEDED string outside memory".into());
                continue;
            };
            let lib = self.m.lib_order.iter().copied().find(|l| self.c.needed_name(*l) == n);
            match lib {
                Some(l) => {
                    if listed.contains(&l) {
                        self.fail("needed", format!("`{}` is listed twice", n));
                    } else {
                        listed.push(l);
                    }
                }
                None if n == interp => {}
                None => self.fail("needed", format!("`{}` is listed, which is the name of no library given", n)),
            }
        }
        let mut order = self.m.lib_order.clone();
        // which mention counts if there are two is open
        let once = |l: &usize| self.c.inputs.iter().filter(|i| **i == Input::Lib(*l)).count() < 2;
        order.retain(|l| listed.contains(l) && once(l));
        let in_order: Vec<usize> = listed.iter().copied().filter(|l| once(l)).collect();
        if order != in_order {
            self.fail("needed", format!("libraries are listed as {:?}, on the command line they come as {:?}", listed, self.m.lib_order));
        }
        for l in 0..self.c.libs.len() {
            if self.c.open_libs.contains(&l) && !listed.contains(&l) {
                self.fail("needed", format!("{} is not listed [{}]", Case::lib_file(l), crate::cmd::STICKY));
            }
            match self.m.needed[l] {
                Some(true) if !listed.contains(&l) => self.fail("needed", format!("{} is needed but not listed", Case::lib_file(l))),
                Some(false) if listed.contains(&l) => self.fail("needed", format!("{} is listed but not needed", Case::lib_file(l))),
                _ => {}
            }
            if self.m.needed[l] == Some(true) {
                self.label("needed libraries");
            }
        }
        listed
            .iter()
            .map(|l| {
                let base = LIB_BASE + LIB_STEP * *l as u64;
                let map = self.c.libs[*l]
                    .exports
                    .iter()
                    .enumerate()
                    .map(|(i, e)| {
                        let bytes = if e.func { vec![] } else { crate::write::obj_bytes(*l, self.c.libs[*l].home(i), e.size) };
                        (e.name.clone(), LibSym { addr: base + lib_offs[*l][i], func: e.func, bytes })
                    })
                    .collect();
                (*l, map)
            })
            .collect()
    }

    fn hashes(&mut self, dy: &Dynamic) {
        let style = self.c.hash_style.clone().unwrap_or_else(|| "both".into());
        let (want_s, want_g) = (style != "gnu", style != "sysv");
        let (has_s, has_g) = (dy.get(DT_HASH).is_some(), dy.get(DT_GNU_HASH).is_some());
        let (sec_s, sec_g) = (self.im.sh.iter().any(|s| s.ty == 5), self.im.sh.iter().any(|s| s.ty == 0x6fff_fff6));
        if (want_s, want_g) != (has_s, has_g) || (want_s, want_g) != (sec_s, sec_g) {
            self.fail("hash", format!("--hash-style={}: DT_HASH {}, DT_GNU_HASH {}, sections {} and {}", style, has_s, has_g, sec_s, sec_g));
        }
        let Some(t) = self.im.sh.iter().find(|s| s.ty == 11) else { return self.fail("hash", "no dynamic symbol table".into()) };
        let Ok(syms) = self.im.symbols(t) else { return };
        let ld = Loader { mem: self.mem.clone(), dy, libs: vec![] };
        let mut probes: Vec<(String, Option<u32>)> = syms.iter().enumerate().skip(1).map(|(i, s)| (s.name.clone(), Some(i as u32))).collect();
        let names: HashSet<String> = probes.iter().map(|p| p.0.clone()).collect();
        let mut absent: Vec<String> = vec!["main".into(), "".into(), "a".into(), "zz".into(), "no_such_symbol".into()];
        for (n, _) in probes.iter().take(40) {
            absent.push(format!("{}x", n));
            absent.push(n[..n.len().saturating_sub(1)].to_string());
        }
        absent.retain(|n| !names.contains(n) && !n.is_empty());
        absent.extend(ld.strangers());
        probes.extend(absent.into_iter().map(|n| (n, None)));
        for (n, want) in probes {
            for (kind, has) in [("DT_HASH", has_s), ("DT_GNU_HASH", has_g)] {
                if !has {
                    continue;
                }
                self.label("hash lookups");
                let r = if kind == "DT_HASH" { ld.lookup_sysv(&n) } else { ld.lookup_gnu_of(&n, syms.len() as u32) };
                match r {
                    Err(e) => self.fail("hash", format!("{} lookup of `{}`: {}", kind, n, e)),
                    Ok(g) if g != want => self.fail("hash", format!("{} lookup of `{}` finds {:?}, symbol is {:?}", kind, n, g, want)),
                    _ => {}
                }
            }
        }
        if has_s {
            // nchain is the number of symbols
            let nc = self.mem.u32(dy.get(DT_HASH).unwrap() + 4);
            if nc != Some(syms.len() as u32) {
                self.fail("hash", format!("DT_HASH has {:?} chains for {} symbols", nc, syms.len()));
            }
        }
    }

    fn inits(&mut self, dy: &Dynamic) {
        for (ty, name, ta, ts) in [(INIT_ARRAY, ".init_array", DT_INIT_ARRAY, DT_INIT_ARRAYSZ), (FINI_ARRAY, ".fini_array", DT_FINI_ARRAY, DT_FINI_ARRAYSZ), (PREINIT_ARRAY, ".preinit_array", DT_PREINIT_ARRAY, DT_PREINIT_ARRAYSZ)] {
            let mut want: Vec<(Option<u64>, String)> = vec![];
            let mut any = false;
            let mut parts: Vec<(u64, usize, usize)> = vec![];
            for o in &self.m.loaded {
                for (s, sec) in self.c.objs[*o].secs.iter().enumerate() {
                    if sec.array() == Some(ty) {
                        let prio = sec.name.strip_prefix(name).and_then(|n| n.strip_prefix('.')).map_or(u64::MAX, |n| n.parse().unwrap_or(u64::MAX));
                        parts.push((prio, *o, s));
                    }
                }
            }
            // explicit objects in command-line order; members have no order among themselves
            let rank = |o: usize, s: usize| match self.m.explicit.iter().position(|e| *e == o) {
                Some(i) => (i, 0),
                None => (usize::MAX, self.locs.get(&(o, s)).and_then(|l| l.addr).unwrap_or(0)),
            };
            parts.sort_by_key(|p| (p.0, rank(p.1, p.2)));
            for (o, s) in parts.iter().map(|p| (&p.1, p.2)) {
                {
                    let sec = self.sec(*o, s);
                    any = true;
                    if sec.name != name {
                        self.label("init and fini pointers with a priority");
                    }
                    for k in 0..sec.size / 8 {
                        let r = sec.rels.get(k as usize).filter(|r| r.off == 8 * k).or_else(|| sec.rels.iter().find(|r| r.off == 8 * k));
                        let v = match r {
                            None => Some(u64::from_le_bytes(sec.data[8 * k as usize..8 * k as usize + 8].try_into().unwrap())),
                            Some(r) => match &r.tgt {
                                Tgt::Null => Some(r.addend as u64),
                                Tgt::Sec(t) => self.sec_value(*o, *t).map(|v| v.wrapping_add(r.addend as u64)),
                                Tgt::Sym(k) => match self.m.res_of(self.c, *o, *k) {
                                    Res::Def { obj, sym } => self.def_value(obj, sym).map(|v| v.wrapping_add(r.addend as u64)),
                                    _ => None,
                                },
                            },
                        };
                        want.push((v, self.what(*o, s)));
                    }
                }
            }
            match (dy.get(ta), dy.get(ts)) {
                (Some(a), Some(z)) => {
                    if z != 8 * want.len() as u64 {
                        self.fail("init", format!("{} has {} bytes, expected {}", name, z, 8 * want.len()));
                        continue;
                    }
                    for (i, (w, what)) in want.iter().enumerate() {
                        self.label("init and fini pointers");
                        let g = self.mem.u64(a + 8 * i as u64);
                        if w.is_some() && g != *w {
                            self.fail("init", format!("{}[{}] is {:x?}, expected {:x?} from {}", name, i, g, w.unwrap(), what));
                        }
                    }
                    if a % 8 != 0 && z > 0 {
                        self.fail("init", format!("{} is at {:#x}", name, a));
                    }
                }
                (None, None) => {
                    if any && !want.is_empty() {
                        self.fail("init", format!("{} is not announced", name));
                    }
                }
                (a, z) => self.fail("init", format!("{} is announced as {:x?}+{:x?}", name, a, z)),
            }
        }
        for (name, tag) in [(".init", DT_INIT), (".fini", DT_FINI)] {
            let mut parts = vec![];
            let mut any = false;
            for o in &self.m.loaded {
                for (s, sec) in self.c.objs[*o].secs.iter().enumerate() {
                    if sec.name == name && sec.size > 0 {
                        any = true;
                        if let Some(Loc { addr: Some(a), .. }) = self.locs.get(&(*o, s)) {
                            parts.push((*a, sec.size, self.m.explicit.contains(o)));
                        }
                    }
                }
            }
            let n_exp = parts.iter().filter(|p| p.2).count();
            parts[n_exp..].sort();
            match dy.get(tag) {
                None if any => self.fail("init", format!("{} is not announced", name)),
                Some(a) => {
                    if !any {
                        let empty = self.c.objs.iter().any(|o| o.secs.iter().any(|s| s.name == name));
                        if !empty {
                            self.fail("init", format!("{} is announced but there is none", name));
                        }
                        continue;
                    }
                    let mut pc = a;
                    for (k, (p, z, _)) in parts.iter().enumerate() {
                        if *p < pc || *p - pc > 1 << 20 {
                            self.fail("init", format!("part {} of {} is at {:#x}, after {:#x}", k, name, p, pc));
                            break;
                        }
                        let gap = self.mem.get(pc, p - pc).unwrap_or_default();
                        if !nops(&gap) {
                            self.fail("init", format!("{} executes {:02x?} between its parts", name, gap));
                        }
                        pc = p + z;
                        if k > 0 {
                            self.label("joined .init or .fini fragments");
                        }
                    }
                }
                None => {}
            }
        }
    }

    fn refs(&mut self, dy: &Dynamic, libs: Vec<(usize, HashMap<String, LibSym>)>, lib_offs: &[Vec<u64>]) {
        let listed: Vec<usize> = libs.iter().map(|l| l.0).collect();
        let mut lazy = Loader { mem: self.mem.clone(), dy, libs: libs.into_iter().map(|l| l.1).collect() };
        if let Err(e) = lazy.relocate() {
            self.fail("load", e);
        }
        // every dynamic relocation must lie in linker-made storage, not in somebody's contents
        let mut now = Loader { mem: lazy.mem.clone(), dy, libs: lazy.libs.clone() };
        if let Err(e) = now.bind_now() {
            self.fail("load", e);
        }
        let mut stub_cache: HashMap<u64, Result<(u64, u64), String>> = HashMap::new();
        let mut copies: BTreeMap<String, (u64, u64, (usize, usize))> = BTreeMap::new();
        // jump slots and copies may not collide
        let mut slots = HashSet::new();
        for (off, ..) in lazy.jmprel().unwrap_or_default() {
            if !slots.insert(off) {
                self.fail("plt", format!("slot {:#x} is used by two functions", off));
            }
        }
        let loaded = self.m.loaded.clone();
        for o in loaded {
            for s in 0..self.c.objs[o].secs.len() {
                let sec = self.sec(o, s);
                if sec.nobits() {
                    continue;
                }
                let Some(l) = self.locs.get(&(o, s)).copied() else { continue };
                for r in &sec.rels {
                    if r.kind == R_NONE {
                        continue;
                    }
                    let (wo, wn) = rel_window(r);
                    let (p, field) = if sec.alloc() {
                        let a = l.addr.unwrap();
                        match now.mem.get(a + wo, wn) {
                            Some(b) => (a + r.off, b),
                            None => continue,
                        }
                    } else {
                        let f = (l.foff.unwrap() + wo) as usize;
                        match self.im.file.get(f..f + wn as usize) {
                            Some(b) => (self.sec_value(o, s).unwrap_or(0) + r.off, b.to_vec()),
                            None => continue,
                        }
                    };
                    let (want, tname, kind): (Want, String, &'static str) = match &r.tgt {
                        Tgt::Null => (Want::Val(0), "(null symbol)".into(), "null"),
                        Tgt::Sec(t) => match self.sec_value(o, *t) {
                            Some(v) => (Want::Val(v), self.what(o, *t), "section"),
                            None => (Want::Skip, String::new(), ""),
                        },
                        Tgt::Sym(k) => {
                            let n = self.c.objs[o].syms[*k].name.clone();
                            match self.m.res_of(self.c, o, *k) {
                                Res::Def { obj, sym } => match self.def_value(obj, sym) {
                                    Some(v) => {
                                        let d = &self.c.objs[obj].syms[sym];
                                        let kind = if d.bind == LOCAL {
                                            "local"
                                        } else if matches!(d.place, Place::Abs(_)) {
                                            "absolute"
                                        } else if obj != o {
                                            "other object"
                                        } else {
                                            "own global"
                                        };
                                        (Want::Val(v), n, kind)
                                    }
                                    None => (Want::Skip, n, ""),
                                },
                                Res::Common { .. } => match self.commons.get(&n) {
                                    Some(v) => (Want::Val(*v), n, "common"),
                                    None => (Want::Skip, n, ""),
                                },
                                Res::WeakZero => (Want::Val(0), n, "unresolved weak"),
                                Res::Unresolved => (Want::Skip, n, ""),
                                Res::Special(sp) => {
                                    let v = match sp {
                                        Special::Got => dy.get(DT_PLTGOT),
                                        Special::InitStart => dy.get(DT_INIT_ARRAY),
                                        Special::InitEnd => dy.get(DT_INIT_ARRAY).map(|a| a + dy.get(DT_INIT_ARRAYSZ).unwrap_or(0)),
                                        Special::FiniStart => dy.get(DT_FINI_ARRAY),
                                        Special::FiniEnd => dy.get(DT_FINI_ARRAY).map(|a| a + dy.get(DT_FINI_ARRAYSZ).unwrap_or(0)),
                                    };
                                    match v {
                                        Some(v) => (Want::Val(v), n, "linker-defined"),
                                        None if sp == Special::Got => {
                                            self.fail("init", "there is no global offset table".into());
                                            (Want::Skip, n, "")
                                        }
                                        // start and end are the same
                                        None => (Want::NoArray(if matches!(sp, Special::InitStart | Special::InitEnd) { "init" } else { "fini" }), n, "linker-defined"),
                                    }
                                }
                                Res::Import { .. } => {
                                    // the loader's choice: the first listed library that has it
                                    match listed.iter().find_map(|l| self.c.libs[*l].exports.iter().position(|e| e.name == n).map(|e| (*l, e))) {
                                        None => (Want::Skip, n, ""),
                                        Some((lib, exp)) => {
                                            if self.c.libs[lib].exports[exp].func {
                                                (Want::Func { lib, exp }, n, "imported function")
                                            } else {
                                                (Want::Data { lib, exp }, n, "imported object")
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    };
                    let at = format!("{}+{:#x} ({} `{}`{:+#x})", self.what(o, s), r.off, kind_name(r.kind), tname, r.addend);
                    let asp: &'static str = match (&want, sec.alloc(), r.kind) {
                        (Want::Skip, ..) => continue,
                        (_, false, _) => "nonalloc",
                        (Want::Func { .. }, ..) => "plt",
                        (Want::Data { .. }, ..) => "copy",
                        _ if kind == "linker-defined" && !tname.starts_with("_GLOBAL") => "init",
                        _ => "ref",
                    };
                    self.label(kind);
                    if [R_GOT32, R_GOTPCREL, R_GOTPCRELX, R_REX_GOTPCRELX].contains(&r.kind) {
                        self.label(if r.kind == R_GOT32 { "index into the GOT" } else { "through the GOT" });
                        // what the field is relative to
                        let p = if r.kind != R_GOT32 {
                            p
                        } else if let Some(t) = dy.get(DT_PLTGOT) {
                            t
                        } else {
                            self.fail("got", "there is no global offset table".into());
                            continue;
                        };
                        let res = self.got_ref(&want, r, p, &sec.data[wo as usize..(wo + wn) as usize], &field, &now, &mut lazy, &mut stub_cache, &tname, lib_offs);
                        if let Err(e) = res {
                            self.fail("got", format!("{}: {}", at, e));
                            if asp == "plt" || asp == "copy" {
                                self.fail(asp, format!("{}: {}", at, e));
                            }
                        }
                        if let Want::Data { lib, exp } = want {
                            self.data_home(lib, exp, &tname, &now, &mut copies);
                        }
                        continue;
                    }
                    let a = r.addend as u64;
                    let got = if r.kind == R_64 { rd64(&field, 0).unwrap() } else { rd32(&field, 0).unwrap() as u64 };
                    let value = |sv: u64| match r.kind {
                        R_64 => sv.wrapping_add(a),
                        R_PC32 | R_PLT32 => sv.wrapping_add(a).wrapping_sub(p) & 0xffff_ffff,
                        _ => sv.wrapping_add(a) & 0xffff_ffff,
                    };
                    match want {
                        Want::Val(v) => {
                            if got != value(v) {
                                self.fail(asp, format!("{}: field holds {:#x}, expected {:#x} (symbol {:#x}, place {:#x})", at, got, value(v), v, p));
                            }
                        }
                        Want::Func { lib, exp } => {
                            let real = LIB_BASE + LIB_STEP * lib as u64 + lib_offs[lib][exp];
                            let canon = match now.lookup(&tname, Class::Normal) {
                                Ok(Some((v, _))) => v,
                                Ok(None) => {
                                    self.fail("plt", format!("the loader does not find `{}`", tname));
                                    continue;
                                }
                                Err(e) => {
                                    self.fail("plt", e);
                                    continue;
                                }
                            };
                            let call = r.kind == R_PLT32 || (r.kind == R_PC32 && r.off > 0 && (sec.data[r.off as usize - 1] & 0xfe) == 0xe8 && sec.flags & X != 0);
                            if call {
                                let t = p.wrapping_add(got as u32 as i32 as i64 as u64).wrapping_sub(a);
                                self.label("calls to imported functions");
                                if let Err(e) = leads(t, real, &now, &lazy, &mut stub_cache) {
                                    self.fail("plt", format!("{}: {}", at, e));
                                }
                            } else {
                                self.label("stored pointers to imported functions");
                                if got != value(canon) {
                                    self.fail("plt", format!("{}: field holds {:#x}, the function's address is {:#x}", at, got, canon));
                                }
                                if let Err(e) = leads(canon, real, &now, &lazy, &mut stub_cache) {
                                    self.fail("plt", format!("address of `{}`: {}", tname, e));
                                }
                            }
                        }
                        Want::Data { lib, exp } => {
                            if let Some(v) = self.data_home(lib, exp, &tname, &now, &mut copies) {
                                if got != value(v) {
                                    self.fail("copy", format!("{}: field holds {:#x}, the object is at {:#x}", at, got, v));
                                }
                            }
                        }
                        Want::NoArray(which) => {
                            let v = got.wrapping_sub(value(0)) & 0xffff_ffff;
                            let w = *self.no_array.entry(which).or_insert(v);
                            if v != w {
                                self.fail("init", format!("{}: start and end of the missing .{}_array are {:#x} and {:#x}", at, which, w, v));
                            }
                        }
                        Want::Skip => {}
                    }
                }
            }
        }
        let mut v: Vec<(u64, u64, String, (usize, usize))> = copies.into_iter().map(|(n, (a, z, h))| (a, z, n, h)).collect();
        v.sort();
        for w in v.windows(2) {
            if w[0].3 == w[1].3 {
                self.label("objects used under several names");
                if w[0].0 != w[1].0 {
                    self.fail("copy", format!("`{}` is at {:#x}, its other name `{}` at {:#x}", w[0].2, w[0].0, w[1].2, w[1].0));
                }
            } else if w[0].0 + w[0].1 > w[1].0 {
                self.fail("copy", format!("storage of `{}` [{:#x}+{:#x}) and `{}` [{:#x}+{:#x}) overlap", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
            }
        }
        // what the program exports may not stand in for anything else of the libraries
        let first = |n: &str| now.libs.iter().find_map(|l| l.get(n));
        let origin: HashMap<u64, u64> = v.iter().filter_map(|x| first(&x.2).map(|s| (s.addr, x.0))).collect();
        let imported: HashSet<u64> = self.m.names.iter().filter(|(_, i)| matches!(i.res, Res::Import { .. })).filter_map(|(n, _)| first(n)).map(|s| s.addr).collect();
        let names: std::collections::BTreeSet<&String> = self.c.libs.iter().flat_map(|l| &l.exports).map(|e| &e.name).collect();
        for n in names {
            let Some(s) = first(n) else { continue };
            let used = self.m.names.get(n).map(|i| matches!(i.res, Res::Import { .. }));
            if used == Some(false) || (used == Some(true) && s.func) {
                continue;
            }
            if imported.contains(&s.addr) && !origin.contains_key(&s.addr) {
                // copied or not, nothing refers to it
                continue;
            }
            let want = origin.get(&s.addr).copied().unwrap_or(s.addr);
            self.label("exported names of libraries looked up");
            match now.lookup(n, Class::Normal) {
                Ok(Some((a, _))) if a == want => {}
                x => self.fail(if s.func { "plt" } else { "copy" }, format!("the libraries' `{}` should be at {:#x}, but the loader finds it at {:x?}", n, want, x)),
            }
        }
    }

    /// Where the imported object lives at run time; checks its storage.
    fn data_home(&mut self, lib: usize, exp: usize, n: &str, now: &Loader, copies: &mut BTreeMap<String, (u64, u64, (usize, usize))>) -> Option<u64> {
        let e = self.c.libs[lib].exports[exp].clone();
        let (addr, home) = match now.lookup(n, Class::Normal) {
            Ok(Some(x)) => x,
            Ok(None) => {
                self.fail("copy", format!("the loader does not find `{}`", n));
                return None;
            }
            Err(m) => {
                self.fail("copy", m);
                return None;
            }
        };
        if home.is_some() {
            return Some(addr);
        }
        if copies.contains_key(n) {
            return Some(addr);
        }
        // the object has all the storage any of its names stands for
        let owner = self.c.libs[lib].home(exp);
        let group: Vec<usize> = (0..self.c.libs[lib].exports.len()).filter(|x| self.c.libs[lib].home(*x) == owner && !self.c.libs[lib].exports[*x].func).collect();
        let mut size = e.size;
        let mut names = vec![n.to_string()];
        for x in group {
            let other = &self.c.libs[lib].exports[x];
            let listed_first = now.libs.iter().find(|l| l.contains_key(&other.name)).and_then(|l| l.get(&other.name)).map(|s| s.addr);
            let ours = self.m.names.get(&other.name).map_or(false, |i| !matches!(i.res, Res::Import { .. }));
            if other.name == n || ours || listed_first != now.libs.iter().find_map(|l| l.get(n)).map(|s| s.addr) {
                continue;
            }
            self.label("other names of imported objects");
            size = size.max(other.size);
            names.push(other.name.clone());
            match now.lookup(&other.name, Class::Normal) {
                Ok(Some((a, _))) if a == addr => {}
                x => self.fail("copy", format!("`{}` is at {:#x}, but the loader finds its other name `{}` at {:x?}", n, addr, other.name, x)),
            }
        }
        copies.insert(n.into(), (addr, size, (lib, owner)));
        self.label("imported objects with storage in the program");
        if addr % e.align != 0 {
            self.fail("copy", format!("storage of `{}` at {:#x} is not aligned to {}", n, addr, e.align));
        }
        let rels = now.rela_dyn().unwrap_or_default();
        let mine: Vec<_> = rels.iter().filter(|r| r.1 == 5 && now.sym(r.2).map_or(false, |s| names.contains(&s.name))).collect();
        if mine.len() != 1 || mine[0].0 != addr {
            self.fail("copy", format!("`{}` at {:#x} is initialised by copy relocations {:x?}", n, addr, mine));
        }
        match self.mem.seg(addr, size) {
            Some(g) if g.flags & 2 != 0 => {}
            _ => self.fail("copy", format!("storage of `{}` at {:#x}+{:#x} is not writable memory", n, addr, size)),
        }
        if now.mem.get(addr, size) != Some(crate::write::obj_bytes(lib, owner, size)) {
            self.fail("copy", format!("storage of `{}` at {:#x} does not start with the library's contents", n, addr));
        }
        match self.out_sec(addr, size) {
            None => self.fail("copy", format!("storage of `{}` at {:#x}+{:#x} is in no output section", n, addr, size)),
            Some(_) => {
                let clash: Vec<_> = self
                    .loaded_secs()
                    .into_iter()
                    .filter(|(o, s)| {
                        let z = self.sec(*o, *s).size;
                        self.locs.get(&(*o, *s)).and_then(|l| l.addr).map_or(false, |a| a < addr + size && addr < a + z)
                    })
                    .collect();
                if let Some((o, s)) = clash.first() {
                    let w = self.what(*o, *s);
                    self.fail("copy", format!("storage of `{}` overlaps {}", n, w));
                }
                for sh in &self.im.sh {
                    let own = [2, 3, 4, 5, 6, 11, 0x6fff_fff6].contains(&sh.ty) || [".got", ".got.plt", ".plt", ".interp"].contains(&&sh.sname[..]);
                    if own && sh.alloc() && sh.addr < addr + size && addr < sh.addr + sh.size {
                        self.fail("copy", format!("storage of `{}` overlaps {}", n, sh.sname));
                    }
                }
            }
        }
        Some(addr)
    }

    #[allow(clippy::too_many_arguments)]
    fn got_ref(&mut self, want: &Want, r: &Rel, p: u64, before: &[u8], after: &[u8], now: &Loader, lazy: &mut Loader, cache: &mut HashMap<u64, Result<(u64, u64), String>>, n: &str, lib_offs: &[Vec<u64>]) -> Result<(), String> {
        let i32at = |o: usize| rd32(after, o).unwrap() as i32 as i64 as u64;
        let lead = match r.kind {
            R_GOT32 => 0,
            R_GOTPCRELX => 2,
            _ => 3,
        };
        let jump = r.kind == R_GOTPCRELX && before[0] == 0xff && [0x15, 0x25].contains(&before[1]);
        let start = p - lead;
        let end = start + after.len() as u64;
        // the address the program ends up with: loaded from a slot, or direct
        let (value, slot) = if after[..lead as usize] == before[..lead as usize] {
            let slot = p.wrapping_add(i32at(lead as usize)).wrapping_sub(r.addend as u64);
            (now.mem.u64(slot).ok_or_else(|| format!("slot {:#x} outside memory", slot))?, Some(slot))
        } else if r.kind == R_GOTPCREL {
            return Err(format!("{:02x?} became {:02x?}", before, after));
        } else if r.kind == R_GOTPCRELX && before[0] != 0xff {
            // an instruction with a 32-bit register
            let reg = before[1] >> 3 & 7;
            let imm = match before[0] {
                0x8b => [0xc7, 0xc0 | reg],
                0x3b => [0x81, 0xf8 | reg],
                0x85 => [0xf7, 0xc0 | reg],
                0x03 => [0x81, 0xc0 | reg],
                _ => [0; 2],
            };
            if after[..2] == imm {
                (i32at(2), None)
            } else if before[0] == 0x8b && after[..2] == [0x8d, before[1]] {
                (end.wrapping_add(i32at(2)), None)
            } else {
                return Err(format!("{:02x?} became {:02x?}", before, after));
            }
        } else if r.kind == R_GOTPCRELX {
            let call = before[1] == 0x15;
            {
                let op = if call { 0xe8 } else { 0xe9 };
                if !jump {
                    return Err(format!("{:02x?} became {:02x?}", before, after));
                } else if after[0] == op && after[5] == 0x90 {
                    (start.wrapping_add(5).wrapping_add(i32at(1)), None)
                } else if after[1] == op && (after[0] == 0x67 || after[0] == 0x90 || after[0] == 0x40) {
                    (end.wrapping_add(i32at(2)), None)
                } else {
                    return Err(format!("{:02x?} became {:02x?}", before, after));
                }
            }
        } else {
            let rex = before[0];
            let reg = (before[2] >> 3 & 7) | (rex & 4) << 1;
            if before[1] != 0x8b {
                // a comparison: with the address as an immediate
                let imm = match before[1] {
                    0x3b => [0x48 | reg >> 3, 0x81, 0xf8 | (reg & 7)],
                    0x85 => [0x48 | reg >> 3, 0xf7, 0xc0 | (reg & 7)],
                    0x03 => [0x48 | reg >> 3, 0x81, 0xc0 | (reg & 7)],
                    _ => [0; 3],
                };
                if after[..3] != imm {
                    return Err(format!("{:02x?} became {:02x?}", before, after));
                }
                (i32at(3), None)
            } else if after[0] == rex && after[1] == 0x8d && after[2] == before[2] {
                (end.wrapping_add(i32at(3)), None)
            } else if after[0] == 0x48 | reg >> 3 && after[1] == 0xc7 && after[2] == 0xc0 | (reg & 7) {
                (i32at(3), None)
            } else {
                return Err(format!("{:02x?} became {:02x?}", before, after));
            }
        };
        if slot.is_none() && r.addend != -4 {
            return Err(format!("{:02x?} with the addend {} became {:02x?}", before, r.addend, after));
        }
        self.label(if slot.is_some() { "GOT slot kept" } else { "GOT reference rewritten" });
        if let Some(s) = slot {
            if let Some((o, k)) = self.loaded_secs().into_iter().find(|(o, k)| {
                let z = self.sec(*o, *k).size;
                self.locs.get(&(*o, *k)).and_then(|l| l.addr).map_or(false, |a| a < s + 8 && s < a + z)
            }) {
                return Err(format!("the slot at {:#x} lies in {}", s, self.what(o, k)));
            }
        }
        match want {
            Want::Val(v) => {
                if value != *v {
                    return Err(format!("{:02x?} became {:02x?}, which reaches {:#x} instead of {:#x}", before, after, value, v));
                }
            }
            Want::Func { lib, exp } => {
                let real = LIB_BASE + LIB_STEP * *lib as u64 + lib_offs[*lib][*exp];
                if !jump {
                    let canon = now.lookup(n, Class::Normal)?.ok_or("the loader does not find it")?.0;
                    if value != canon {
                        return Err(format!("yields {:#x}, the function's address is {:#x}", value, canon));
                    }
                    self.label("stored pointers to imported functions");
                } else {
                    self.label("calls to imported functions");
                }
                leads(value, real, now, lazy, cache)?;
                if let Some(s) = slot {
                    // the slot as it is before binding must lead there as well
                    let v = lazy.mem.u64(s).ok_or("slot outside memory")?;
                    if !jump && v != value {
                        return Err(format!("the slot holds {:#x} before and {:#x} after binding", v, value));
                    }
                    leads(v, real, now, lazy, cache)?;
                }
            }
            Want::Data { .. } => {
                let a = now.lookup(n, Class::Normal)?.ok_or("the loader does not find it")?.0;
                if value != a {
                    return Err(format!("yields {:#x}, the object is at {:#x}", value, a));
                }
            }
            Want::NoArray(_) | Want::Skip => {}
        }
        Ok(())
    }
}

/// Code at `t` must end up at `real`, with eager and with lazy binding.
fn leads(t: u64, real: u64, now: &Loader, lazy: &Loader, cache: &mut HashMap<u64, Result<(u64, u64), String>>) -> Result<(), String> {
    if t == real {
        return Ok(());
    }
    let r = cache
        .entry(t)
        .or_insert_with(|| {
            let run = |l: &Loader| {
                if l.mem.seg(t, 1).map_or(true, |s| s.flags & 1 == 0) {
                    return Err(format!("{:#x} is not executable memory", t));
                }
                let mut l = Loader { mem: l.mem.clone(), dy: l.dy, libs: l.libs.clone() };
                l.follow(t).map(|x| x.0)
            };
            Ok((run(now)?, run(lazy)?))
        })
        .clone();
    match r {
        Err(e) => Err(e),
        Ok((a, b)) if a == real && b == real => Ok(()),
        Ok((a, b)) => Err(format!("control reaches {:#x} (bound eagerly) and {:#x} (lazily) instead of {:#x}", a, b, real)),
    }
}

/// only no-op instructions
pub fn nops(mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = match b {
            [0x90, ..] => 1,
            [0x66, 0x90, ..] => 2,
            [0x0f, 0x1f, 0x00, ..] => 3,
            [0x0f, 0x1f, 0x40, 0, ..] => 4,
            [0x0f, 0x1f, 0x44, 0, 0, ..] => 5,
            [0x66, 0x0f, 0x1f, 0x44, 0, 0, ..] => 6,
            [0x0f, 0x1f, 0x80, 0, 0, 0, 0, ..] => 7,
            [0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0, ..] => 8,
            [0x66, 0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0, ..] => 9,
            _ => return false,
        };
        b = &b[n..];
    }
    true
}

pub fn kind_name(k: u32) -> &'static str {
    match k {
        R_64 => "64",
        R_PC32 => "PC32",
        R_PLT32 => "PLT32",
        R_32 => "32",
        R_32S => "32S",
        R_GOT32 => "GOT32",
        R_GOTPCREL => "GOTPCREL",
        R_GOTPCRELX => "GOTPCRELX",
        R_REX_GOTPCRELX => "REX_GOTPCRELX",
        _ => "?",
    }
}
