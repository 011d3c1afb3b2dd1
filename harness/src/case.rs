//! The inputs of one link, in a form the reference model, the file writers and the replay files
//! share.
use serde::{Deserialize, Serialize};

pub const R_NONE: u32 = 0;
pub const R_64: u32 = 1;
pub const R_PC32: u32 = 2;
pub const R_GOT32: u32 = 3;
pub const R_PLT32: u32 = 4;
pub const R_GOTPCREL: u32 = 9;
pub const R_32: u32 = 10;
pub const R_32S: u32 = 11;
pub const R_GOTPCRELX: u32 = 41;
pub const R_REX_GOTPCRELX: u32 = 42;

pub const W: u64 = 1;
pub const A: u64 = 2;
pub const X: u64 = 4;
pub const M: u64 = 0x10;
pub const S: u64 = 0x20;
/// in the order of another section of the same file
pub const LINK_ORDER: u64 = 0x80;
/// member of a section group
pub const GROUP: u64 = 0x200;
/// not to be garbage collected
pub const RETAIN: u64 = 0x20_0000;
pub const LARGE: u64 = 0x1000_0000;

pub const PROGBITS: u32 = 1;
pub const NOTE: u32 = 7;
pub const NOBITS: u32 = 8;
pub const INIT_ARRAY: u32 = 14;
pub const PREINIT_ARRAY: u32 = 16;
pub const FINI_ARRAY: u32 = 15;
pub const UNWIND: u32 = 0x7000_0001;

pub const LOCAL: u8 = 0;
pub const GLOBAL: u8 = 1;
pub const WEAK: u8 = 2;

pub const T_NOTYPE: u8 = 0;
pub const T_OBJECT: u8 = 1;
pub const T_FUNC: u8 = 2;
pub const T_FILE: u8 = 4;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tgt {
    Sym(usize),
    Sec(usize),
    Null,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rel {
    pub off: u64,
    pub kind: u32,
    pub tgt: Tgt,
    pub addend: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Place {
    Undef,
    Abs(u64),
    Sec(usize, u64),
    Common(u64),
    /// a common symbol of the medium code model
    Large(u64),
}

impl Place {
    /// The alignment of a common symbol.
    pub fn common(&self) -> Option<u64> {
        match self {
            Place::Common(a) | Place::Large(a) => Some(*a),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sym {
    pub name: String,
    pub bind: u8,
    pub ty: u8,
    pub vis: u8,
    pub place: Place,
    pub size: u64,
}

mod hex {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        let mut o = String::with_capacity(v.len() * 2);
        for b in v {
            o.push_str(&format!("{:02x}", b));
        }
        s.serialize_str(&o)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sec {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub align: u64,
    pub entsize: u64,
    pub size: u64,
    #[serde(with = "hex")]
    pub data: Vec<u8>,
    /// offset of an 8-byte fingerprint that occurs nowhere else
    pub tag: Option<u64>,
    pub rels: Vec<Rel>,
}

impl Sec {
    /// What the output section is by its name, if one of pointers.
    pub fn array(&self) -> Option<u32> {
        let is = |n: &str| self.name == n || self.name.strip_prefix(n).map_or(false, |r| r.starts_with('.'));
        if is(".init_array") {
            Some(INIT_ARRAY)
        } else if is(".fini_array") {
            Some(FINI_ARRAY)
        } else if self.name == ".preinit_array" {
            Some(PREINIT_ARRAY)
        } else {
            None
        }
    }
    pub fn alloc(&self) -> bool {
        self.flags & A != 0
    }
    pub fn nobits(&self) -> bool {
        self.ty == NOBITS
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Obj {
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    /// order of the sections in the file: 0 = relocation section right behind its target (gas,
    /// clang), 1 = all relocation sections last (nasm), 2 = symbol and string tables first and
    /// relocation sections before everything else
    pub layout: u8,
    /// let names share their tails in the string table
    pub tails: bool,
    /// emit the symbols of each binding class in reverse
    pub rev: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Archive {
    /// (member name, object index)
    pub members: Vec<(String, usize)>,
    /// written the way BSD systems do: 1 like by `ar`, 2 like by `llvm-ar`; 0 is System V's way
    #[serde(default)]
    pub bsd: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Export {
    pub name: String,
    pub func: bool,
    pub weak: bool,
    pub size: u64,
    pub align: u64,
    /// another export of the library whose storage this is
    #[serde(default)]
    pub alias: Option<String>,
    /// a function whose symbol doesn't say so
    #[serde(default)]
    pub untyped: bool,
    /// of which there is one in the whole process
    #[serde(default)]
    pub unique: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Lib {
    pub soname: Option<String>,
    /// the name of its file, if not the usual one
    #[serde(default)]
    pub file: Option<String>,
    pub exports: Vec<Export>,
    pub undefs: Vec<String>,
    /// what nobody else sees
    #[serde(default)]
    pub locals: Vec<String>,
    /// without section headers
    #[serde(default)]
    pub bare: bool,
    /// Given by a path with a directory
    #[serde(default)]
    pub dotted: bool,
}

impl Lib {
    /// Which export owns the storage of export `e`.
    pub fn home(&self, e: usize) -> usize {
        let a = &self.exports[e].alias;
        a.as_ref().and_then(|a| self.exports.iter().position(|x| x.name == *a && x.alias.is_none() && !x.func)).unwrap_or(e)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Input {
    Obj(usize),
    Ar(usize),
    Lib(usize),
    AsNeeded(bool),
    Raw(Vec<String>),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub objs: Vec<Obj>,
    pub archives: Vec<Archive>,
    pub libs: Vec<Lib>,
    pub inputs: Vec<Input>,
    pub hash_style: Option<String>,
    pub interp: Option<String>,
    /// libraries of which it is open whether --as-needed applies to them
    #[serde(default)]
    pub open_libs: Vec<usize>,
    /// of the process, if not the usual one
    #[serde(default)]
    pub umask: Option<u32>,
}

impl Case {
    pub fn obj_file(i: usize) -> String {
        format!("o{}.o", i)
    }
    pub fn ar_file(i: usize) -> String {
        format!("libar{}.a", i)
    }
    pub fn lib_file(i: usize) -> String {
        format!("libso{}.so", i)
    }
    /// Has more in the loaded objects than 32-bit displacements may reach across.
    pub fn vast(&self) -> bool {
        self.objs.iter().flat_map(|o| &o.secs).any(|s| s.nobits() && s.size >= 1 << 31)
    }
    /// Has more kinds of loaded sections than a file may have segments, or nearly so.
    pub fn rainbow(&self) -> bool {
        let mut kinds: Vec<u64> = self.objs.iter().flat_map(|o| &o.secs).map(|s| s.flags).filter(|f| f & 2 != 0).collect();
        kinds.sort_unstable();
        kinds.dedup();
        kinds.len() >= 1150
    }
    /// Has close to as many sections as there are section numbers.
    pub fn horde(&self) -> bool {
        self.objs.iter().map(|o| o.secs.len()).sum::<usize>() >= 65_000
    }
    /// What DT_NEEDED calls the library.
    pub fn needed_name(&self, l: usize) -> String {
        let lib = &self.libs[l];
        lib.soname.clone().or_else(|| lib.file.clone()).unwrap_or_else(|| Self::lib_file(l))
    }
    pub fn args(&self) -> Vec<String> {
        let mut v = vec!["-o".to_string(), "out".to_string()];
        if let Some(h) = &self.hash_style {
            v.push(format!("--hash-style={}", h));
        }
        if let Some(i) = &self.interp {
            v.push("-dynamic-linker".into());
            v.push(i.clone());
        }
        for i in &self.inputs {
            match i {
                Input::Obj(i) => v.push(Self::obj_file(*i)),
                Input::Ar(i) => v.push(Self::ar_file(*i)),
                Input::Lib(i) if self.libs[*i].dotted => v.push(format!("./{}", Self::lib_file(*i))),
                Input::Lib(i) => v.push(Self::lib_file(*i)),
                Input::AsNeeded(true) => v.push("--as-needed".into()),
                Input::AsNeeded(false) => v.push("--no-as-needed".into()),
                Input::Raw(r) => v.extend(r.iter().cloned()),
            }
        }
        v
    }
}

/// The fingerprint of section `s` of object `o`. Filler bytes never contain 0xd1.
pub fn tag_bytes(o: usize, s: usize) -> [u8; 8] {
    let mut z = ((o as u64) << 20 | s as u64).wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^= z >> 31;
    let b = z.to_le_bytes();
    let mut t = [0xd1, 0xdc, 0xc0, b[0], b[1], b[2], b[3], b[4]];
    for x in &mut t[1..] {
        if *x == 0xd1 {
            *x = 0xd2;
        }
    }
    t
}
