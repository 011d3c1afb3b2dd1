//! Writers for relocatable objects, archives and shared libraries (independent of goblin).
use crate::case::*;
use std::collections::HashMap;

struct Buf(Vec<u8>);
impl Buf {
    fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    fn u16(&mut self, v: u16) {
        self.0.extend(v.to_le_bytes())
    }
    fn u32(&mut self, v: u32) {
        self.0.extend(v.to_le_bytes())
    }
    fn u64(&mut self, v: u64) {
        self.0.extend(v.to_le_bytes())
    }
    fn align(&mut self, a: usize) {
        while self.0.len() % a.max(1) != 0 {
            self.0.push(0)
        }
    }
}

pub struct StrTab {
    pub data: Vec<u8>,
    map: HashMap<String, u32>,
}

impl StrTab {
    /// `tails`: names may point into the tail of longer names
    pub fn build<'a>(names: impl Iterator<Item = &'a str>, tails: bool) -> StrTab {
        let mut v: Vec<&str> = names.collect();
        if tails {
            v.sort_by_key(|s| std::cmp::Reverse(s.len()));
        }
        let mut t = StrTab { data: vec![0], map: HashMap::new() };
        t.map.insert(String::new(), 0);
        for n in v {
            if t.map.contains_key(n) {
                continue;
            }
            if tails {
                let mut needle = n.as_bytes().to_vec();
                needle.push(0);
                if let Some(p) = t.data.windows(needle.len()).position(|w| w == &needle[..]) {
                    t.map.insert(n.to_string(), p as u32);
                    continue;
                }
            }
            t.map.insert(n.to_string(), t.data.len() as u32);
            t.data.extend(n.as_bytes());
            t.data.push(0);
        }
        t
    }
    pub fn get(&self, n: &str) -> u32 {
        self.map[n]
    }
}

fn sym(b: &mut Buf, name: u32, info: u8, other: u8, shndx: u16, value: u64, size: u64) {
    b.u32(name);
    b.u8(info);
    b.u8(other);
    b.u16(shndx);
    b.u64(value);
    b.u64(size);
}

#[allow(clippy::too_many_arguments)]
fn shdr(b: &mut Buf, name: u32, ty: u32, flags: u64, addr: u64, off: u64, size: u64, link: u32, info: u32, align: u64, ent: u64) {
    b.u32(name);
    b.u32(ty);
    b.u64(flags);
    b.u64(addr);
    b.u64(off);
    b.u64(size);
    b.u32(link);
    b.u32(info);
    b.u64(align);
    b.u64(ent);
}

fn ehdr(b: &mut Buf, ty: u16, phoff: u64, phnum: u16, shoff: u64, shnum: u16, shstrndx: u16) {
    b.0.extend([0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    b.u16(ty);
    b.u16(62);
    b.u32(1);
    b.u64(0);
    b.u64(phoff);
    b.u64(shoff);
    b.u32(0);
    b.u16(64);
    b.u16(if phnum > 0 { 56 } else { 0 });
    b.u16(phnum);
    b.u16(64);
    b.u16(shnum);
    b.u16(shstrndx);
}

enum Item {
    Group,
    User(usize),
    Rela(usize),
    Symtab,
    Strtab,
    Shstrtab,
}

pub fn object(o: &Obj) -> Vec<u8> {
    // section order
    let mut items = vec![];
    if o.secs.iter().any(|s| s.flags & GROUP != 0) {
        items.push(Item::Group);
    }
    let has_rela: Vec<bool> = o.secs.iter().map(|s| !s.rels.is_empty()).collect();
    match o.layout {
        1 => {
            items.extend((0..o.secs.len()).map(Item::User));
            items.extend([Item::Shstrtab, Item::Symtab, Item::Strtab]);
            items.extend((0..o.secs.len()).filter(|i| has_rela[*i]).map(Item::Rela));
        }
        2 => {
            items.extend([Item::Strtab, Item::Symtab]);
            items.extend((0..o.secs.len()).rev().filter(|i| has_rela[*i]).map(Item::Rela));
            items.extend((0..o.secs.len()).map(Item::User));
            items.push(Item::Shstrtab);
        }
        _ => {
            for i in 0..o.secs.len() {
                items.push(Item::User(i));
                if has_rela[i] {
                    items.push(Item::Rela(i));
                }
            }
            items.extend([Item::Symtab, Item::Strtab, Item::Shstrtab]);
        }
    }
    let mut user_index = vec![0u16; o.secs.len()];
    let mut group: Vec<u32> = vec![0];
    let (mut symtab_index, mut strtab_index, mut shstr_index) = (0, 0, 0);
    for (k, it) in items.iter().enumerate() {
        match it {
            Item::User(i) => user_index[*i] = (k + 1) as u16,
            Item::Symtab => symtab_index = k + 1,
            Item::Strtab => strtab_index = k + 1,
            Item::Shstrtab => shstr_index = k + 1,
            Item::Rela(_) | Item::Group => {}
        }
        if let Item::User(i) | Item::Rela(i) = it {
            if o.secs[*i].flags & GROUP != 0 {
                group.push(k as u32 + 1);
            }
        }
    }
    // symbols: null, section symbols, locals, others
    let strs = StrTab::build(o.syms.iter().map(|s| s.name.as_str()), o.tails);
    let mut order: Vec<usize> = (0..o.syms.len()).filter(|i| o.syms[*i].bind == LOCAL).collect();
    let mut rest: Vec<usize> = (0..o.syms.len()).filter(|i| o.syms[*i].bind != LOCAL).collect();
    if o.rev {
        order.reverse();
        rest.reverse();
    }
    let n_local = 1 + o.secs.len() + order.len();
    order.extend(rest);
    let mut sym_index = vec![0u64; o.syms.len()];
    let mut st = Buf(vec![]);
    sym(&mut st, 0, 0, 0, 0, 0, 0);
    for i in 0..o.secs.len() {
        sym(&mut st, 0, 3, 0, user_index[i], 0, 0);
    }
    for (k, i) in order.iter().enumerate() {
        let s = &o.syms[*i];
        sym_index[*i] = (1 + o.secs.len() + k) as u64;
        let (shndx, value) = match &s.place {
            Place::Undef => (0, 0),
            Place::Abs(v) => (0xfff1, *v),
            Place::Common(a) => (0xfff2, *a),
            Place::Large(a) => (0xff02, *a),
            Place::Sec(sec, off) => (user_index[*sec], *off),
        };
        sym(&mut st, strs.get(&s.name), s.bind << 4 | s.ty, s.vis, shndx, value, s.size);
    }
    let rela_names: Vec<String> = o.secs.iter().map(|s| format!(".rela{}", s.name)).collect();
    let shstrs = StrTab::build(
        o.secs.iter().map(|s| s.name.as_str()).chain(rela_names.iter().map(|s| s.as_str())).chain([".symtab", ".strtab", ".shstrtab", ".group"]),
        o.tails,
    );

    let mut b = Buf(vec![0; 64]);
    let mut hdrs = Buf(vec![0; 64]);
    for it in &items {
        match it {
            Item::User(i) => {
                let s = &o.secs[*i];
                b.align((s.align.max(1) as usize).min(16));
                let off = b.0.len() as u64;
                if !s.nobits() {
                    b.0.extend(&s.data);
                }
                let link = if s.flags & LINK_ORDER != 0 { user_index[0] as u32 } else { 0 };
                shdr(&mut hdrs, shstrs.get(&s.name), s.ty, s.flags, 0, off, s.size, link, 0, s.align, s.entsize);
            }
            Item::Group => {
                b.align(4);
                let off = b.0.len() as u64;
                for g in &group {
                    b.u32(*g);
                }
                // named by a section symbol
                shdr(&mut hdrs, shstrs.get(".group"), 17, 0, 0, off, 4 * group.len() as u64, symtab_index as u32, 1, 4, 4);
            }
            Item::Rela(i) => {
                b.align(8);
                let off = b.0.len() as u64;
                for r in &o.secs[*i].rels {
                    let idx = match r.tgt {
                        Tgt::Sym(s) => sym_index[s],
                        Tgt::Sec(s) => 1 + s as u64,
                        Tgt::Null => 0,
                    };
                    b.u64(r.off);
                    b.u64(idx << 32 | r.kind as u64);
                    b.u64(r.addend as u64);
                }
                let size = b.0.len() as u64 - off;
                shdr(&mut hdrs, shstrs.get(&rela_names[*i]), 4, 0x40 | (o.secs[*i].flags & GROUP), 0, off, size, symtab_index as u32, user_index[*i] as u32, 8, 24);
            }
            Item::Symtab => {
                b.align(8);
                let off = b.0.len() as u64;
                b.0.extend(&st.0);
                shdr(&mut hdrs, shstrs.get(".symtab"), 2, 0, 0, off, st.0.len() as u64, strtab_index as u32, n_local as u32, 8, 24);
            }
            Item::Strtab => {
                let off = b.0.len() as u64;
                b.0.extend(&strs.data);
                shdr(&mut hdrs, shstrs.get(".strtab"), 3, 0, 0, off, strs.data.len() as u64, 0, 0, 1, 0);
            }
            Item::Shstrtab => {
                let off = b.0.len() as u64;
                b.0.extend(&shstrs.data);
                shdr(&mut hdrs, shstrs.get(".shstrtab"), 3, 0, 0, off, shstrs.data.len() as u64, 0, 0, 1, 0);
            }
        }
    }
    b.align(8);
    let shoff = b.0.len() as u64;
    b.0.extend(&hdrs.0);
    let mut e = Buf(vec![]);
    ehdr(&mut e, 1, 0, 0, shoff, items.len() as u16 + 1, shstr_index as u16);
    b.0[..64].copy_from_slice(&e.0);
    b.0
}

fn bsd_archive(a: &Archive, index: &[(usize, &str)], bytes: &[Vec<u8>]) -> Vec<u8> {
    let name = |n: &str| {
        let mut x = n.as_bytes().to_vec();
        if a.bsd == 2 || n.len() > 16 || n.contains(' ') {
            let pad = if a.bsd == 2 { 8 } else { 1 };
            // the data of members is to be aligned
            while (60 + x.len()) % pad != 0 {
                x.push(0);
            }
            (format!("#1/{}", x.len()), x)
        } else {
            (n.to_string(), vec![])
        }
    };
    let pad = |n: usize| n + (n & 1);
    let mut strs = vec![];
    let mut ranlib = vec![];
    let mut index = index.to_vec();
    if a.bsd > 2 {
        index.sort_by_key(|(_, n)| *n);
    }
    for (m, n) in &index {
        ranlib.push((strs.len() as u32, *m));
        strs.extend(n.as_bytes());
        strs.push(0);
    }
    while strs.len() % 4 != 0 {
        strs.push(0);
    }
    let idx_size = 8 + 8 * ranlib.len() + strs.len();
    let (idx_head, idx_name) = match a.bsd {
        3 => name("__.SYMDEF SORTED"),
        4 => ("__.SYMDEF SORTED".to_string(), vec![]),
        _ => name("__.SYMDEF"),
    };
    let mut off = 8 + 60 + pad(idx_name.len() + idx_size);
    let mut offs = vec![];
    for (n, o) in &a.members {
        offs.push(off as u32);
        off += 60 + pad(name(n).1.len() + bytes[*o].len());
    }
    let mut out = b"!<arch>\n".to_vec();
    let mut member = |name: &str, parts: &[&[u8]]| {
        let size: usize = parts.iter().map(|p| p.len()).sum();
        out.extend(format!("{:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", name, 0, 0, 0, "644", size).as_bytes());
        for p in parts {
            out.extend(*p);
        }
        if out.len() % 2 == 1 {
            out.push(b'\n');
        }
        out.len()
    };
    let mut idx = ((8 * ranlib.len()) as u32).to_le_bytes().to_vec();
    for (n, m) in &ranlib {
        idx.extend(n.to_le_bytes());
        idx.extend(offs[*m].to_le_bytes());
    }
    idx.extend((strs.len() as u32).to_le_bytes());
    idx.extend(strs);
    let mut end = member(&idx_head, &[&idx_name, &idx]);
    for (m, (n, o)) in a.members.iter().enumerate() {
        assert_eq!(end, offs[m] as usize);
        let (head, n) = name(n);
        end = member(&head, &[&n, &bytes[*o]]);
    }
    out
}

pub fn archive(a: &Archive, objs: &[Obj], bytes: &[Vec<u8>]) -> Vec<u8> {
    let mut index: Vec<(usize, &str)> = vec![];
    for (m, (_, o)) in a.members.iter().enumerate() {
        for s in &objs[*o].syms {
            if s.bind != LOCAL && s.place != Place::Undef {
                index.push((m, &s.name));
            }
        }
    }
    if a.bsd != 0 {
        return bsd_archive(a, &index, bytes);
    }
    // GNU variant: "/" symbol index, "//" long names
    let mut long = Vec::new();
    let mut names = vec![];
    for (n, _) in &a.members {
        if n.len() > 15 {
            names.push(format!("/{}", long.len()));
            long.extend(n.as_bytes());
            long.extend(b"/\n");
        } else {
            names.push(format!("{}/", n));
        }
    }
    let strsz: usize = index.iter().map(|(_, n)| n.len() + 1).sum();
    let idx_size = 4 + 4 * index.len() + strsz;
    let pad = |n: usize| n + (n & 1);
    let mut off = 8 + 60 + pad(idx_size);
    if !long.is_empty() {
        off += 60 + pad(long.len());
    }
    let mut offs = vec![];
    for (_, o) in &a.members {
        offs.push(off as u32);
        off += 60 + pad(bytes[*o].len());
    }
    let mut out = b"!<arch>\n".to_vec();
    let hdr = |out: &mut Vec<u8>, name: &str, size: usize| {
        out.extend(format!("{:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", name, 0, 0, 0, "644", size).as_bytes());
    };
    hdr(&mut out, "/", idx_size);
    out.extend((index.len() as u32).to_be_bytes());
    for (m, _) in &index {
        out.extend(offs[*m].to_be_bytes());
    }
    for (_, n) in &index {
        out.extend(n.as_bytes());
        out.push(0);
    }
    if out.len() % 2 == 1 {
        out.push(b'\n');
    }
    if !long.is_empty() {
        hdr(&mut out, "//", long.len());
        out.extend(&long);
        if out.len() % 2 == 1 {
            out.push(b'\n');
        }
    }
    for (m, (_, o)) in a.members.iter().enumerate() {
        assert_eq!(out.len(), offs[m] as usize);
        hdr(&mut out, &names[m], bytes[*o].len());
        out.extend(&bytes[*o]);
        if out.len() % 2 == 1 {
            out.push(b'\n');
        }
    }
    out
}

fn sysv_hash(n: &str) -> u32 {
    let mut h: u32 = 0;
    for b in n.bytes() {
        h = (h << 4).wrapping_add(b as u32);
        let g = h & 0xf000_0000;
        h ^= g >> 24;
        h &= !g;
    }
    h
}

/// What function `e` of library `l` returns (its code is `mov $x,%eax; ret`).
pub fn func_result(l: usize, e: usize) -> u32 {
    0x1000_0000 + ((l as u32) << 16) + e as u32
}

/// Initial contents of object `e` of library `l`.
pub fn obj_bytes(l: usize, e: usize, size: u64) -> Vec<u8> {
    (0..size).map(|i| ((l as u64 * 31 + e as u64 * 7 + i * 3 + 1) & 0x7f) as u8 | 0x80).map(|b| if b == 0xd1 { 0x81 } else { b }).collect()
}

/// A shared library the real loader could load: one PT_LOAD over the whole file. Returns the file
/// and the offset of each export from the load base.
pub fn shared(l: usize, lib: &Lib) -> (Vec<u8>, Vec<u64>) {
    let names = StrTab::build(
        lib.exports.iter().map(|e| e.name.as_str()).chain(lib.undefs.iter().chain(&lib.locals).map(|s| s.as_str())).chain(lib.soname.iter().map(|s| s.as_str())),
        false,
    );
    let shn = StrTab::build([".dynsym", ".dynstr", ".hash", ".dynamic", ".text", ".data", ".shstrtab"].into_iter(), false);
    let phnum = 2u64;
    let mut b = Buf(vec![0; 64 + 56 * phnum as usize]);
    b.align(64);
    let text_off = b.0.len() as u64;
    let mut offs = vec![0; lib.exports.len()];
    for (i, e) in lib.exports.iter().enumerate().filter(|(_, e)| e.func) {
        b.align(16);
        offs[i] = b.0.len() as u64;
        b.u8(0xb8);
        b.u32(func_result(l, i));
        b.u8(0xc3);
        let _ = e;
    }
    let text_size = b.0.len() as u64 - text_off;
    b.align(4096);
    let data_off = b.0.len() as u64;
    for (i, e) in lib.exports.iter().enumerate().filter(|(i, e)| !e.func && lib.home(*i) == *i) {
        b.align(e.align as usize);
        offs[i] = b.0.len() as u64;
        b.0.extend(obj_bytes(l, i, e.size));
    }
    for i in 0..lib.exports.len() {
        offs[i] = offs[lib.home(i)];
    }
    let data_size = b.0.len() as u64 - data_off;
    b.align(8);
    let dynsym_off = b.0.len() as u64;
    sym(&mut b, 0, 0, 0, 0, 0, 0);
    let mut order: Vec<&str> = vec![];
    for (k, n) in lib.locals.iter().enumerate() {
        match k % 3 {
            0 => sym(&mut b, names.get(n), 2, 0, 5, text_off, 6),
            1 => sym(&mut b, names.get(n), 1, 0, 6, data_off, 8),
            _ => sym(&mut b, names.get(n), 0, 0, 5, text_off, 0),
        }
    }
    // undefined entries first and last, so that a match by name alone would find them
    for (k, u) in lib.undefs.iter().enumerate().filter(|(k, _)| k % 2 == 0) {
        sym(&mut b, names.get(u), [1 << 4, 2 << 4, 1 << 4 | 2, 1 << 4 | 1][(k / 2) % 4], 0, 0, 0, 0);
        order.push(u);
    }
    for (i, e) in lib.exports.iter().enumerate() {
        let info = (if e.unique { 10 } else if e.weak { 2 } else { 1 }) << 4 | if e.untyped { 0 } else if e.func { 2 } else { 1 };
        sym(&mut b, names.get(&e.name), info, 0, if e.func { 5 } else { 6 }, offs[i], e.size);
        order.push(&e.name);
    }
    for (k, u) in lib.undefs.iter().enumerate().filter(|(k, _)| k % 2 == 1) {
        sym(&mut b, names.get(u), [1 << 4, 2 << 4, 1 << 4 | 2, 1 << 4 | 1][(k / 2) % 4], 0, 0, 0, 0);
        order.push(u);
    }
    let first = 1 + lib.locals.len();
    let nsyms = order.len() + first;
    let dynsym_size = b.0.len() as u64 - dynsym_off;
    let dynstr_off = b.0.len() as u64;
    b.0.extend(&names.data);
    b.align(8);
    let hash_off = b.0.len() as u64;
    let mut chains = vec![0u32; nsyms];
    let mut buckets = vec![0u32; 3];
    for (i, n) in order.iter().enumerate() {
        let k = (sysv_hash(n) % 3) as usize;
        chains[i + first] = buckets[k];
        buckets[k] = (i + first) as u32;
    }
    b.u32(3);
    b.u32(nsyms as u32);
    for x in buckets.iter().chain(chains.iter()) {
        b.u32(*x);
    }
    let hash_size = b.0.len() as u64 - hash_off;
    b.align(8);
    let dyn_off = b.0.len() as u64;
    let mut dynv = vec![];
    if let Some(s) = &lib.soname {
        dynv.push((14, names.get(s) as u64));
    }
    dynv.extend([(4, hash_off), (5, dynstr_off), (6, dynsym_off), (10, names.data.len() as u64), (11, 24), (0, 0)]);
    for (t, v) in &dynv {
        b.u64(*t);
        b.u64(*v);
    }
    let dyn_size = b.0.len() as u64 - dyn_off;
    let shstr_off = b.0.len() as u64;
    b.0.extend(&shn.data);
    b.align(8);
    let load_size = b.0.len() as u64;
    let shoff = load_size;
    let mut h = Buf(vec![0; 64]);
    shdr(&mut h, shn.get(".dynsym"), 11, 2, dynsym_off, dynsym_off, dynsym_size, 2, first as u32, 8, 24);
    shdr(&mut h, shn.get(".dynstr"), 3, 2, dynstr_off, dynstr_off, names.data.len() as u64, 0, 0, 1, 0);
    shdr(&mut h, shn.get(".hash"), 5, 2, hash_off, hash_off, hash_size, 1, 0, 8, 4);
    shdr(&mut h, shn.get(".dynamic"), 6, 3, dyn_off, dyn_off, dyn_size, 2, 0, 8, 16);
    shdr(&mut h, shn.get(".text"), 1, 6, text_off, text_off, text_size, 0, 0, 16, 0);
    let data_align = lib.exports.iter().filter(|e| !e.func).fold(64, |a, e| a.max(e.align));
    shdr(&mut h, shn.get(".data"), 1, 3, data_off, data_off, data_size, 0, 0, data_align, 0);
    shdr(&mut h, shn.get(".shstrtab"), 3, 0, 0, shstr_off, shn.data.len() as u64, 0, 0, 1, 0);
    let mut e = Buf(vec![]);
    if lib.bare {
        ehdr(&mut e, 3, 64, phnum as u16, 0, 0, 0);
    } else {
        b.0.extend(&h.0);
        ehdr(&mut e, 3, 64, phnum as u16, shoff, 8, 7);
    }
    for (ty, off, size, align) in [(1u32, 0u64, load_size, 0x1000u64), (2, dyn_off, dyn_size, 8)] {
        e.u32(ty);
        e.u32(7);
        e.u64(off);
        e.u64(off);
        e.u64(off);
        e.u64(size);
        e.u64(size);
        e.u64(align);
    }
    b.0[..e.0.len()].copy_from_slice(&e.0);
    (b.0, offs)
}
