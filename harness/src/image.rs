//! Strict reader for linked executables, a memory image as the kernel would build it, and a model
//! of the dynamic loader (symbol lookup, eager and lazy binding).
use std::collections::HashMap;

pub fn rd16(b: &[u8], o: usize) -> Option<u16> {
    Some(u16::from_le_bytes(b.get(o..o.checked_add(2)?)?.try_into().unwrap()))
}
pub fn rd32(b: &[u8], o: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(o..o.checked_add(4)?)?.try_into().unwrap()))
}
pub fn rd64(b: &[u8], o: usize) -> Option<u64> {
    Some(u64::from_le_bytes(b.get(o..o.checked_add(8)?)?.try_into().unwrap()))
}

#[derive(Clone, Debug, Default)]
pub struct Shdr {
    pub name: u32,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub ent: u64,
    pub sname: String,
}

impl Shdr {
    pub fn alloc(&self) -> bool {
        self.flags & 2 != 0
    }
    pub fn fsize(&self) -> u64 {
        if self.ty == 8 {
            0
        } else {
            self.size
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Phdr {
    pub ty: u32,
    pub flags: u32,
    pub off: u64,
    pub vaddr: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub align: u64,
}

#[derive(Clone, Debug, Default)]
pub struct DSym {
    pub name: String,
    pub info: u8,
    pub other: u8,
    pub shndx: u16,
    pub value: u64,
    pub size: u64,
}

pub struct Image {
    pub file: Vec<u8>,
    pub entry: u64,
    pub phoff: u64,
    pub shoff: u64,
    pub shstrndx: u16,
    pub ph: Vec<Phdr>,
    pub sh: Vec<Shdr>,
}

impl Image {
    pub fn parse(file: Vec<u8>) -> Result<Image, String> {
        let f = &file;
        let e = |s: &str| Err::<Image, _>(s.to_string());
        if f.len() < 64 || f[..4] != [0x7f, b'E', b'L', b'F'] {
            return e("no ELF header");
        }
        if f[4] != 2 || f[5] != 1 || f[6] != 1 {
            return e("not a 64-bit little-endian ELF file of version 1");
        }
        if !(f[7] == 0 || f[7] == 3) {
            return e("unexpected OS ABI");
        }
        if f[8..16].iter().any(|b| *b != 0) {
            return e("padding of e_ident not zero");
        }
        if rd16(f, 16) != Some(2) {
            return e("not an executable (e_type)");
        }
        if rd16(f, 18) != Some(62) {
            return e("not for x86-64 (e_machine)");
        }
        if rd32(f, 20) != Some(1) || rd32(f, 48) != Some(0) {
            return e("bad e_version or e_flags");
        }
        if rd16(f, 52) != Some(64) || rd16(f, 54) != Some(56) || rd16(f, 58) != Some(64) {
            return e("bad e_ehsize, e_phentsize or e_shentsize");
        }
        let entry = rd64(f, 24).unwrap();
        let phoff = rd64(f, 32).unwrap();
        let shoff = rd64(f, 40).unwrap();
        let phnum = rd16(f, 56).unwrap() as usize;
        if phnum * 56 > 65536 {
            return e("the system refuses files with so many program headers");
        }
        let shnum = rd16(f, 60).unwrap() as usize;
        let shstrndx = rd16(f, 62).unwrap();
        let mut ph = vec![];
        for i in 0..phnum {
            let o = phoff as usize + 56 * i;
            if f.get(o..o + 56).is_none() {
                return e("program header table outside the file");
            }
            ph.push(Phdr {
                ty: rd32(f, o).unwrap(),
                flags: rd32(f, o + 4).unwrap(),
                off: rd64(f, o + 8).unwrap(),
                vaddr: rd64(f, o + 16).unwrap(),
                filesz: rd64(f, o + 32).unwrap(),
                memsz: rd64(f, o + 40).unwrap(),
                align: rd64(f, o + 48).unwrap(),
            });
        }
        let mut sh = vec![];
        for i in 0..shnum {
            let o = (shoff as usize).wrapping_add(64 * i);
            if o > f.len() || f.get(o..o + 64).is_none() {
                return e("section header table outside the file");
            }
            sh.push(Shdr {
                name: rd32(f, o).unwrap(),
                ty: rd32(f, o + 4).unwrap(),
                flags: rd64(f, o + 8).unwrap(),
                addr: rd64(f, o + 16).unwrap(),
                off: rd64(f, o + 24).unwrap(),
                size: rd64(f, o + 32).unwrap(),
                link: rd32(f, o + 40).unwrap(),
                info: rd32(f, o + 44).unwrap(),
                align: rd64(f, o + 48).unwrap(),
                ent: rd64(f, o + 56).unwrap(),
                sname: String::new(),
            });
        }
        for p in &ph {
            if p.off.checked_add(p.filesz).map_or(true, |e| e > f.len() as u64) {
                return Err(format!("segment outside the file: {:x?} file size {:#x}", p, f.len()));
            }
            if p.vaddr.checked_add(p.memsz).map_or(true, |e| e > 0x7fff_ffff_f000) {
                return Err(format!("segment outside the address space: {:x?}", p));
            }
        }
        for s in &sh {
            if s.ty != 0 && s.off.checked_add(s.fsize()).map_or(true, |e| e > f.len() as u64) {
                return Err(format!("section outside the file: {:x?} file size {:#x}", s, f.len()));
            }
        }
        let mut im = Image { entry, phoff, shoff, shstrndx, ph, sh, file };
        if im.sh.is_empty() {
            return e("no section headers");
        }
        let strs = match im.sh.get(shstrndx as usize) {
            Some(s) if s.ty == 3 => s.clone(),
            _ => return e("e_shstrndx does not name a string table"),
        };
        for i in 0..im.sh.len() {
            match im.cstr(&strs, im.sh[i].name as u64) {
                Some(n) => im.sh[i].sname = n,
                None => return Err(format!("name of section {} outside the string table", i)),
            }
        }
        Ok(im)
    }

    pub fn bytes(&self, s: &Shdr) -> &[u8] {
        &self.file[s.off as usize..(s.off + s.fsize()) as usize]
    }

    pub fn cstr(&self, s: &Shdr, off: u64) -> Option<String> {
        cstr(self.bytes(s), off as usize)
    }

    pub fn section(&self, name: &str) -> Option<&Shdr> {
        self.sh.iter().find(|s| s.sname == name)
    }

    pub fn symbols(&self, s: &Shdr) -> Result<Vec<DSym>, String> {
        let b = self.bytes(s);
        if b.len() % 24 != 0 {
            return Err("symbol table size not a multiple of the entry size".into());
        }
        let strs = match self.sh.get(s.link as usize) {
            Some(t) if t.ty == 3 => t,
            _ => return Err(format!("sh_link of {} does not name a string table", s.sname)),
        };
        let mut v = vec![];
        for i in 0..b.len() / 24 {
            let o = i * 24;
            let name = self.cstr(strs, rd32(b, o).unwrap() as u64).ok_or("symbol name outside the string table")?;
            v.push(DSym { name, info: b[o + 4], other: b[o + 5], shndx: rd16(b, o + 6).unwrap(), value: rd64(b, o + 8).unwrap(), size: rd64(b, o + 16).unwrap() });
        }
        Ok(v)
    }
}

pub fn cstr(b: &[u8], off: usize) -> Option<String> {
    let r = b.get(off..)?;
    let n = r.iter().position(|c| *c == 0)?;
    Some(String::from_utf8_lossy(&r[..n]).into_owned())
}

#[derive(Clone)]
pub struct Seg {
    pub vaddr: u64,
    pub memsz: u64,
    pub filesz: u64,
    pub flags: u32,
    pub data: Vec<u8>,
}

#[derive(Clone)]
pub struct Mem {
    pub segs: Vec<Seg>,
    /// writes to file-less memory
    over: HashMap<u64, u8>,
}

impl Mem {
    pub fn load(im: &Image) -> Mem {
        let mut segs = vec![];
        for p in im.ph.iter().filter(|p| p.ty == 1) {
            let data = im.file[p.off as usize..(p.off + p.filesz) as usize].to_vec();
            segs.push(Seg { vaddr: p.vaddr, memsz: p.memsz, filesz: p.filesz, flags: p.flags, data });
        }
        Mem { segs, over: HashMap::new() }
    }
    pub fn seg(&self, a: u64, n: u64) -> Option<&Seg> {
        self.segs.iter().find(|s| a >= s.vaddr && a.checked_add(n).map_or(false, |e| e <= s.vaddr + s.memsz))
    }
    pub fn get(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        let s = self.seg(a, n)?;
        let o = (a - s.vaddr) as usize;
        let e = o + n as usize;
        let mut v = if o < s.data.len() { s.data[o..e.min(s.data.len())].to_vec() } else { vec![] };
        let have = v.len();
        v.resize(n as usize, 0);
        if have < v.len() && !self.over.is_empty() {
            for i in have..v.len() {
                if let Some(b) = self.over.get(&(a + i as u64)) {
                    v[i] = *b;
                }
            }
        }
        Some(v)
    }
    /// Offset of the first byte of the range that is not zero when the program starts.
    pub fn nonzero(&self, a: u64, n: u64) -> Option<u64> {
        let s = self.seg(a, n)?;
        let o = (a - s.vaddr) as usize;
        let e = (o + n as usize).min(s.data.len());
        if o >= e {
            return None;
        }
        s.data[o..e].iter().position(|b| *b != 0).map(|p| p as u64)
    }
    pub fn set(&mut self, a: u64, b: &[u8]) -> bool {
        for s in &mut self.segs {
            if a >= s.vaddr && a + b.len() as u64 <= s.vaddr + s.memsz {
                let o = (a - s.vaddr) as usize;
                for (i, x) in b.iter().enumerate() {
                    match s.data.get_mut(o + i) {
                        Some(d) => *d = *x,
                        None => {
                            self.over.insert(a + i as u64, *x);
                        }
                    }
                }
                return true;
            }
        }
        false
    }
    pub fn u32(&self, a: u64) -> Option<u32> {
        Some(u32::from_le_bytes(self.get(a, 4)?.try_into().unwrap()))
    }
    pub fn u64(&self, a: u64) -> Option<u64> {
        Some(u64::from_le_bytes(self.get(a, 8)?.try_into().unwrap()))
    }
    pub fn cstr(&self, a: u64) -> Option<String> {
        let s = self.seg(a, 1)?;
        cstr(&s.data, (a - s.vaddr) as usize)
    }
}

pub fn sysv_hash(n: &[u8]) -> u32 {
    let mut h: u32 = 0;
    for b in n {
        h = (h << 4).wrapping_add(*b as u32);
        let g = h & 0xf000_0000;
        h ^= g >> 24;
        h &= !g;
    }
    h
}

pub fn gnu_hash(n: &[u8]) -> u32 {
    n.iter().fold(5381u32, |h, b| h.wrapping_mul(33).wrapping_add(*b as u32))
}

/// What the dynamic section says, as the loader reads it.
#[derive(Clone, Debug, Default)]
pub struct Dynamic {
    pub tags: Vec<(u64, u64)>,
}

impl Dynamic {
    pub fn get(&self, t: u64) -> Option<u64> {
        // the loader keeps the last one
        self.tags.iter().rev().find(|x| x.0 == t).map(|x| x.1)
    }
    pub fn all(&self, t: u64) -> Vec<u64> {
        self.tags.iter().filter(|x| x.0 == t).map(|x| x.1).collect()
    }
}

pub const DT_NEEDED: u64 = 1;
pub const DT_PLTRELSZ: u64 = 2;
pub const DT_PLTGOT: u64 = 3;
pub const DT_HASH: u64 = 4;
pub const DT_STRTAB: u64 = 5;
pub const DT_SYMTAB: u64 = 6;
pub const DT_RELA: u64 = 7;
pub const DT_RELASZ: u64 = 8;
pub const DT_RELAENT: u64 = 9;
pub const DT_STRSZ: u64 = 10;
pub const DT_SYMENT: u64 = 11;
pub const DT_INIT: u64 = 12;
pub const DT_FINI: u64 = 13;
pub const DT_PLTREL: u64 = 20;
pub const DT_JMPREL: u64 = 23;
pub const DT_INIT_ARRAY: u64 = 25;
pub const DT_FINI_ARRAY: u64 = 26;
pub const DT_INIT_ARRAYSZ: u64 = 27;
pub const DT_FINI_ARRAYSZ: u64 = 28;
pub const DT_PREINIT_ARRAY: u64 = 32;
pub const DT_PREINIT_ARRAYSZ: u64 = 33;
pub const DT_GNU_HASH: u64 = 0x6fff_fef5;

pub fn dynamic(im: &Image, mem: &Mem) -> Result<Dynamic, String> {
    let p = im.ph.iter().find(|p| p.ty == 2).ok_or("no dynamic segment")?;
    let mut tags = vec![];
    let mut a = p.vaddr;
    loop {
        if a + 16 > p.vaddr + p.memsz {
            return Err("dynamic section not terminated inside its segment".into());
        }
        let t = mem.u64(a).ok_or("dynamic section not in memory")?;
        let v = mem.u64(a + 8).ok_or("dynamic section not in memory")?;
        tags.push((t, v));
        if t == 0 {
            break;
        }
        a += 16;
    }
    Ok(Dynamic { tags })
}

pub struct Loader<'a> {
    pub mem: Mem,
    pub dy: &'a Dynamic,
    /// libraries in the order the loader would search them: name -> (address, is function, size)
    pub libs: Vec<HashMap<String, LibSym>>,
}

#[derive(Clone, Debug)]
pub struct LibSym {
    pub addr: u64,
    pub func: bool,
    pub bytes: Vec<u8>,
}

pub const RESOLVER: u64 = 0x7ffe_0000_1000;
pub const LINKMAP: u64 = 0x7ffe_0000_2000;

#[derive(Clone, Debug)]
pub struct Found {
    pub index: u32,
    pub sym: DSym,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Normal,
    Plt,
    Copy,
}

impl<'a> Loader<'a> {
    pub fn sym(&self, i: u32) -> Option<DSym> {
        let a = self.dy.get(DT_SYMTAB)? + 24 * i as u64;
        let b = self.mem.get(a, 24)?;
        let name = self.mem.cstr(self.dy.get(DT_STRTAB)? + rd32(&b, 0)? as u64)?;
        Some(DSym { name, info: b[4], other: b[5], shndx: rd16(&b, 6)?, value: rd64(&b, 8)?, size: rd64(&b, 16)? })
    }

    /// DT_GNU_HASH lookup, as in glibc's do_lookup_x
    pub fn lookup_gnu(&self, name: &str) -> Result<Option<u32>, String> {
        self.lookup_gnu_of(name, u32::MAX)
    }

    /// Names which no symbol has, but which get past the filter, one for each bucket in use.
    pub fn strangers(&self) -> Vec<String> {
        let go = || -> Option<Vec<String>> {
            let t = self.dy.get(DT_GNU_HASH)?;
            let w = |a: u64| self.mem.u32(a);
            let (nb, bs, sh) = (w(t)?, w(t + 8)?, w(t + 12)?);
            if nb == 0 || bs == 0 || !bs.is_power_of_two() || nb > 1 << 20 {
                return None;
            }
            let buckets = t + 16 + 8 * bs as u64;
            let mut open: std::collections::HashSet<u32> = (0..nb).filter(|b| w(buckets + 4 * *b as u64).map_or(false, |i| i != 0)).collect();
            let mut v = vec![];
            for i in 0..8000 {
                if open.is_empty() {
                    break;
                }
                let n = format!("stranger\u{1}{}", i);
                let h = gnu_hash(n.as_bytes());
                let word = self.mem.u64(t + 16 + 8 * ((h / 64) & (bs - 1)) as u64)?;
                let h2 = if sh < 32 { h >> sh } else { 0 };
                if word >> (h % 64) & 1 == 1 && word >> (h2 % 64) & 1 == 1 && open.remove(&(h % nb)) {
                    v.push(n);
                }
            }
            Some(v)
        };
        go().unwrap_or_default()
    }

    /// DT_GNU_HASH lookup among that many symbols
    pub fn lookup_gnu_of(&self, name: &str, count: u32) -> Result<Option<u32>, String> {
        let t = self.dy.get(DT_GNU_HASH).ok_or("no DT_GNU_HASH")?;
        let w = |a: u64| self.mem.u32(a).ok_or_else(|| format!("GNU hash table reaches outside memory at {:#x}", a));
        let (nb, off, bs, sh) = (w(t)?, w(t + 4)?, w(t + 8)?, w(t + 12)?);
        if nb == 0 || bs == 0 || !bs.is_power_of_two() {
            return Err(format!("GNU hash table has {} buckets and {} filter words", nb, bs));
        }
        let h = gnu_hash(name.as_bytes());
        let word = self.mem.u64(t + 16 + 8 * ((h / 64) & (bs - 1)) as u64).ok_or("GNU hash filter outside memory")?;
        let h2 = if sh < 32 { h >> sh } else { 0 };
        if word >> (h % 64) & 1 == 0 || word >> (h2 % 64) & 1 == 0 {
            return Ok(None);
        }
        let buckets = t + 16 + 8 * bs as u64;
        let chains = buckets + 4 * nb as u64;
        let mut i = w(buckets + 4 * (h % nb) as u64)?;
        if i == 0 {
            return Ok(None);
        }
        if i < off {
            return Err("GNU hash bucket below the first hashed symbol".into());
        }
        for _ in 0..200_000 {
            if i >= count {
                return Err(format!("GNU hash chain goes on at symbol {} of {}", i, count));
            }
            let c = w(chains + 4 * (i - off) as u64)?;
            if c | 1 == h | 1 {
                let s = self.sym(i).ok_or("GNU hash table names a symbol outside memory")?;
                if s.name == name {
                    return Ok(Some(i));
                }
            }
            if c & 1 == 1 {
                return Ok(None);
            }
            i += 1;
        }
        Err("GNU hash chain does not end".into())
    }

    /// DT_HASH lookup
    pub fn lookup_sysv(&self, name: &str) -> Result<Option<u32>, String> {
        let t = self.dy.get(DT_HASH).ok_or("no DT_HASH")?;
        let w = |a: u64| self.mem.u32(a).ok_or_else(|| format!("hash table reaches outside memory at {:#x}", a));
        let (nb, nc) = (w(t)?, w(t + 4)?);
        if nb == 0 {
            return Err("hash table has no buckets".into());
        }
        let h = sysv_hash(name.as_bytes());
        let mut i = w(t + 8 + 4 * (h % nb) as u64)?;
        let mut steps = 0;
        while i != 0 {
            if i >= nc {
                return Err(format!("hash chain names symbol {} of {}", i, nc));
            }
            let s = self.sym(i).ok_or("hash table names a symbol outside memory")?;
            if s.name == name {
                return Ok(Some(i));
            }
            i = w(t + 8 + 4 * nb as u64 + 4 * i as u64)?;
            steps += 1;
            if steps > nc {
                return Err("hash chain does not end".into());
            }
        }
        Ok(None)
    }

    pub fn lookup_exe(&self, name: &str) -> Result<Option<Found>, String> {
        let i = if self.dy.get(DT_GNU_HASH).is_some() {
            self.lookup_gnu(name)?
        } else if self.dy.get(DT_HASH).is_some() {
            self.lookup_sysv(name)?
        } else {
            None
        };
        Ok(match i {
            None => None,
            Some(i) => Some(Found { index: i, sym: self.sym(i).ok_or("dynamic symbol outside memory")? }),
        })
    }

    /// Global scope lookup: address, and the library it was found in (None: the executable)
    pub fn lookup(&self, name: &str, class: Class) -> Result<Option<(u64, Option<usize>)>, String> {
        if class != Class::Copy {
            if let Some(f) = self.lookup_exe(name)? {
                let s = &f.sym;
                let ty = s.info & 0xf;
                let usable = (s.value != 0 || s.shndx == 0xfff1 || ty == 6)
                    && !(s.shndx == 0 && class == Class::Plt)
                    && s.info >> 4 != 0
                    && (s.other & 3 == 0 || s.other & 3 == 3);
                if usable {
                    return Ok(Some((s.value, None)));
                }
            }
        }
        for (i, l) in self.libs.iter().enumerate() {
            if let Some(s) = l.get(name) {
                return Ok(Some((s.addr, Some(i))));
            }
        }
        Ok(None)
    }

    fn relas(&self, tab: u64, size: u64) -> Result<Vec<(u64, u32, u32, i64)>, String> {
        let mut v = vec![];
        for i in 0..size / 24 {
            let b = self.mem.get(tab + 24 * i, 24).ok_or("dynamic relocation table outside memory")?;
            let info = rd64(&b, 8).unwrap();
            v.push((rd64(&b, 0).unwrap(), info as u32, (info >> 32) as u32, rd64(&b, 16).unwrap() as i64));
        }
        Ok(v)
    }
    pub fn rela_dyn(&self) -> Result<Vec<(u64, u32, u32, i64)>, String> {
        match (self.dy.get(DT_RELA), self.dy.get(DT_RELASZ)) {
            (Some(t), Some(s)) => self.relas(t, s),
            _ => Ok(vec![]),
        }
    }
    pub fn jmprel(&self) -> Result<Vec<(u64, u32, u32, i64)>, String> {
        match (self.dy.get(DT_JMPREL), self.dy.get(DT_PLTRELSZ)) {
            (Some(t), Some(s)) => self.relas(t, s),
            _ => Ok(vec![]),
        }
    }

    fn bind(&self, name: &str, weak: bool, class: Class) -> Result<u64, String> {
        match self.lookup(name, class)? {
            Some((a, _)) => Ok(a),
            None if weak => Ok(0),
            None => Err(format!("the loader finds no definition of `{}`", name)),
        }
    }

    /// Processes .rela.dyn; copies are done last, as glibc does for the main program.
    pub fn relocate(&mut self) -> Result<(), String> {
        let rels = self.rela_dyn()?;
        for pass in 0..2 {
            for (off, ty, si, add) in &rels {
                if (*ty == 5) != (pass == 1) {
                    continue;
                }
                let s = self.sym(*si).ok_or_else(|| format!("dynamic relocation names symbol {} outside the table", si))?;
                let weak = s.info >> 4 == 2;
                let bytes = match ty {
                    0 => continue,
                    1 => self.bind(&s.name, weak, Class::Normal)?.wrapping_add(*add as u64).to_le_bytes().to_vec(),
                    6 => self.bind(&s.name, weak, Class::Normal)?.to_le_bytes().to_vec(),
                    7 => self.bind(&s.name, weak, Class::Plt)?.to_le_bytes().to_vec(),
                    8 => (*add as u64).to_le_bytes().to_vec(),
                    5 => {
                        let mut b = None;
                        for l in &self.libs {
                            if let Some(x) = l.get(&s.name) {
                                b = Some(x.bytes.clone());
                                break;
                            }
                        }
                        let mut b = b.ok_or_else(|| format!("copy relocation for `{}`, which no library has", s.name))?;
                        b.truncate(s.size as usize);
                        b
                    }
                    t => return Err(format!("dynamic relocation of type {}", t)),
                };
                if self.mem.seg(*off, 1).map_or(true, |s| s.flags & 2 == 0) || !self.mem.set(*off, &bytes) {
                    return Err(format!("dynamic relocation for `{}` writes to {:#x}, which is not writable memory", s.name, off));
                }
            }
        }
        // lazy binding prepares GOT[1] and GOT[2]
        if let Some(g) = self.dy.get(DT_PLTGOT) {
            if !self.jmprel()?.is_empty() {
                if !self.mem.set(g + 8, &LINKMAP.to_le_bytes()) || !self.mem.set(g + 16, &RESOLVER.to_le_bytes()) {
                    return Err(format!("DT_PLTGOT {:#x} is not writable memory", g));
                }
            }
        }
        Ok(())
    }

    /// What binding JMPREL entry `i` writes and where.
    pub fn jump_slot(&self, i: u64) -> Result<(u64, u64, String), String> {
        let rels = self.jmprel()?;
        let (off, ty, si, _) = *rels.get(i as usize).ok_or_else(|| format!("lazy binding asks for PLT relocation {} of {}", i, rels.len()))?;
        if ty != 7 {
            return Err(format!("PLT relocation {} has type {}", i, ty));
        }
        let s = self.sym(si).ok_or("PLT relocation names a symbol outside the table")?;
        Ok((off, self.bind(&s.name, s.info >> 4 == 2, Class::Plt)?, s.name))
    }

    pub fn bind_now(&mut self) -> Result<(), String> {
        for i in 0..self.jmprel()?.len() as u64 {
            let (off, v, n) = self.jump_slot(i)?;
            if self.mem.seg(off, 8).map_or(true, |s| s.flags & 2 == 0) || !self.mem.set(off, &v.to_le_bytes()) {
                return Err(format!("jump slot of `{}` at {:#x} is not writable memory", n, off));
            }
        }
        Ok(())
    }

    /// Follows code from `a` until it leaves the program or reaches code that is no stub.
    /// Returns the address reached, with the slots read by jumps on the way.
    pub fn follow(&mut self, a: u64) -> Result<(u64, Vec<u64>), String> {
        let mut pc = a;
        let mut stack: Vec<u64> = vec![];
        let mut slots = vec![];
        for _ in 0..16 {
            if pc == RESOLVER {
                let (Some(idx), Some(lm)) = (stack.get(stack.len().wrapping_sub(2)), stack.last()) else {
                    return Err("stub enters the resolver without its two arguments".into());
                };
                if *lm != LINKMAP {
                    return Err("stub passes something else than GOT[1] to the resolver".into());
                }
                let (off, v, _) = self.jump_slot(*idx)?;
                if self.mem.seg(off, 8).map_or(true, |s| s.flags & 2 == 0) || !self.mem.set(off, &v.to_le_bytes()) {
                    return Err("jump slot is not writable memory".into());
                }
                if slots.first() != Some(&off) {
                    return Err(format!("stub at {:#x} jumps through slot {:x?} but binding it fills slot {:#x}", a, slots.first(), off));
                }
                pc = v;
                continue;
            }
            let Some(seg) = self.mem.seg(pc, 1) else { return Ok((pc, slots)) };
            if seg.flags & 1 == 0 {
                return Ok((pc, slots));
            }
            let mut b: Vec<u8> = (0..16).map_while(|i| self.mem.get(pc + i, 1)).map(|v| v[0]).collect();
            b.resize(16, 0xcc);
            let d = |o: usize| rd32(&b, o).unwrap() as i32 as i64 as u64;
            if b[..4] == [0xf3, 0x0f, 0x1e, 0xfa] {
                pc += 4;
            } else if b[0] == 0x90 {
                pc += 1;
            } else if b[..2] == [0xff, 0x25] || b[..3] == [0xf2, 0xff, 0x25] {
                let n = if b[0] == 0xf2 { 7 } else { 6 };
                let slot = (pc + n).wrapping_add(d(n as usize - 4));
                slots.push(slot);
                pc = self.mem.u64(slot).ok_or_else(|| format!("stub at {:#x} jumps through {:#x}, outside memory", a, slot))?;
            } else if b[..2] == [0xff, 0x35] {
                let slot = (pc + 6).wrapping_add(d(2));
                stack.push(self.mem.u64(slot).ok_or("stub pushes from outside memory")?);
                pc += 6;
            } else if b[0] == 0x68 {
                stack.push(d(1));
                pc += 5;
            } else if b[0] == 0xe9 {
                pc = (pc + 5).wrapping_add(d(1));
            } else {
                return Ok((pc, slots));
            }
        }
        Err(format!("stub at {:#x} does not lead anywhere", a))
    }
}
