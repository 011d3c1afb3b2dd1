//! Generators: a tape of random numbers becomes the inputs of one link.
use crate::case::*;
use crate::tape::Tape;

/// What a property wants to see often.
#[derive(Clone, Debug)]
pub struct Profile {
    pub objs: (usize, usize),
    pub secs: (usize, usize),
    pub names: (usize, usize),
    pub slots: (usize, usize),
    /// percentages
    pub archives: usize,
    pub libs: usize,
    pub import_data: usize,
    pub got: usize,
    pub nobits: usize,
    pub tiny: usize,
    pub big: usize,
    pub zero: usize,
    pub high_align: usize,
    pub nonalloc: usize,
    pub init: usize,
    pub mess: usize,
    pub abs: usize,
    pub as_needed: usize,
    pub special: usize,
    pub weak_zero: usize,
    pub hash_names: usize,
    pub many_exports: usize,
    pub huge_bss: usize,
    pub two_homes: usize,
    pub wide: usize,
    pub commons: usize,
    pub same_name: usize,
    /// section flags that make no difference to a final link
    pub odd: usize,
    /// in per mille
    pub crowd: usize,
    /// many pointers in one array, in 10,000
    pub legion: usize,
    /// of ten thousand: more symbols in one object than 16 bits can count
    pub sea: usize,
    /// of ten thousand: more sections than 8 bits can count
    pub swarm: usize,
    /// per ten thousand: dozens of parts of one output section
    pub pile: usize,
    /// per ten thousand: archives in the formats of BSD systems
    pub bsd: usize,
    /// of ten thousand: more sections than a file can have
    pub horde: usize,
    /// of ten thousand: about as many segments as a file can have
    pub rainbow: usize,
    /// of ten thousand: more zeros than 32 bits can count
    pub vast: usize,
    /// sections with the same contents
    pub twin: usize,
    pub chain: usize,
    pub twice: usize,
    pub debug_only: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            objs: (1, 4),
            secs: (1, 6),
            names: (1, 8),
            slots: (0, 5),
            archives: 15,
            libs: 25,
            import_data: 35,
            got: 12,
            nobits: 12,
            tiny: 12,
            big: 4,
            zero: 6,
            high_align: 12,
            nonalloc: 8,
            init: 12,
            mess: 20,
            abs: 10,
            as_needed: 20,
            special: 10,
            weak_zero: 12,
            hash_names: 10,
            many_exports: 3,
            huge_bss: 0,
            two_homes: 10,
            wide: 10,
            commons: 5,
            same_name: 4,
            odd: 4,
            crowd: 0,
            legion: 5,
            sea: 2,
            swarm: 3,
            pile: 20,
            bsd: 500,
            horde: 0,
            rainbow: 0,
            vast: 0,
            twin: 2,
            chain: 3,
            twice: 6,
            debug_only: false,
        }
    }
}

struct Kind {
    name: &'static str,
    ty: u32,
    flags: u64,
    ent: u64,
    /// N stands for a small number appended to the name
    numbered: bool,
}

const fn k(name: &'static str, ty: u32, flags: u64, ent: u64, numbered: bool) -> Kind {
    Kind { name, ty, flags, ent, numbered }
}

const KINDS: &[Kind] = &[
    k(".text", PROGBITS, A | X, 0, false),
    k(".data", PROGBITS, A | W, 0, false),
    k(".rodata", PROGBITS, A, 0, false),
    k(".text.f", PROGBITS, A | X, 0, true),
    k(".rodata.cst16", PROGBITS, A | M, 16, false),
    k(".rodata.str1.1", PROGBITS, A | M | S, 1, false),
    k(".rodata.str4.4", PROGBITS, A | M | S, 4, false),
    k(".rodata.cst8", PROGBITS, A | M, 8, false),
    k(".data.rel.ro", PROGBITS, A | W, 0, false),
    k(".data.v", PROGBITS, A | W, 0, true),
    k("sec_a", PROGBITS, A, 0, false),
    k("sec_w", PROGBITS, A | W, 0, false),
    k("sec_x", PROGBITS, A | X, 0, false),
    k("sec_wx", PROGBITS, A | W | X, 0, false),
    k(".eh_frame", UNWIND, A, 0, false),
    k(".note.x", NOTE, A, 0, false),
];
const NOBITS_KINDS: &[Kind] = &[k(".bss", NOBITS, A | W, 0, false), k(".bss.z", NOBITS, A | W, 0, true), k(".jit", NOBITS, A | W | X, 0, true)];
const NONALLOC_KINDS: &[Kind] = &[
    k(".debug_info", PROGBITS, 0, 0, false),
    k(".comment", PROGBITS, M | S, 1, false),
    k(".debug_line", PROGBITS, 0, 0, false),
    k(".debug_str", PROGBITS, M | S, 1, false),
    k(".debug_wide", PROGBITS, M | S, 2, false),
    k(".debug_x", PROGBITS, 0, 0, true),
    k(".note.GNU-stack", PROGBITS, 0, 0, false),
    k(".odd", PROGBITS, W, 0, true),
];

#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    /// strong definition in this object
    Def(usize),
    /// weak definitions only
    WeakDef(Vec<usize>),
    Abs(usize, u64),
    /// common symbols in these objects, and perhaps a definition besides
    Common { objs: Vec<usize>, strong: Option<usize>, weak: Option<usize> },
    Import { func: bool },
    Nobody,
    Special,
}

pub struct Name {
    pub n: String,
    pub plan: Plan,
    pub locals: Vec<usize>,
    pub weak_extra: Vec<usize>,
    /// undefined references are weak in these objects
    pub wide: bool,
}

pub fn filler(seed: u32, i: usize) -> u8 {
    let mut z = (seed as u64) << 32 | i as u64;
    z = (z ^ (z >> 15)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z ^= z >> 29;
    let b = (z >> 17) as u8;
    if b == 0xd1 {
        0xd0
    } else {
        b
    }
}

pub fn make_names(t: &mut Tape, n: usize, hash_names: usize) -> Vec<String> {
    let style = if t.chance(hash_names) { t.range(1, 7) } else { 0 };
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let s = match style {
            0 => format!("n{}", i),
            // names that collide in the GNU hash
            1 => (0..4).map(|b| if i >> b & 1 == 1 { "Ez" } else { "FY" }).collect::<String>() + &"x".repeat(i / 16),
            // names that collide in the SysV hash
            2 => (0..4).map(|b| if i >> b & 1 == 1 { "ab" } else { "bR" }).collect::<String>() + &"x".repeat(i / 16),
            // tails of one another
            3 => "abcdefghij".repeat(i / 10 + 1)[9 - i % 10..].to_string(),
            // heads of one another
            4 => "p".repeat(i + 1),
            5 => format!("{}{}", "long_name_".repeat(20), i),
            6 => {
                // arbitrary characters, as other languages use
                let mut s = String::new();
                for _ in 0..t.range(1, 8) {
                    s.push(*t.pick(&['a', 'Z', '_', '$', '.', '0', 'é', '@', '~', 'q']));
                }
                format!("{}{}", s, i)
            }
            _ => format!("v{:x}", t.raw()),
        };
        v.push(s);
    }
    let mut seen = std::collections::HashSet::new();
    v.iter().enumerate().map(|(i, s)| if seen.insert(s.clone()) && s != "_start" { s.clone() } else { format!("{}_{}", s, i) }).collect()
}

pub const SPECIALS: [&str; 5] = ["_GLOBAL_OFFSET_TABLE_", "__init_array_start", "__init_array_end", "__fini_array_start", "__fini_array_end"];

pub fn gen(t: &mut Tape, p: &Profile) -> Case {
    let mut c = Case::default();
    let has_legion = t.rare(p.legion);
    let (has_swarm, has_sea, is_vast, is_horde, is_rainbow, crowd, has_pile, bsd) = (t.rare(p.swarm), t.rare(p.sea), t.rare(p.vast), t.rare(p.horde), t.rare(p.rainbow), t.rare(10 * p.crowd), t.rare(p.pile), if t.rare(p.bsd) { 1 + t.below(4) as u8 } else { 0 });
    let n_exp = t.range(p.objs.0, p.objs.1);
    let n_ar = if t.chance(p.archives) { t.range(1, 2) } else { 0 };
    let mut n_objs = n_exp;
    for a in 0..n_ar {
        let mut members = vec![];
        for _ in 0..t.range(1, 3) {
            let name = match t.below(10) {
                8 => format!("a_rather_long_member_name_{}.o", n_objs),
                // ar q keeps members of the same name apart
                9 => "same.o".to_string(),
                _ => format!("m{}.o", n_objs),
            };
            members.push((name, n_objs));
            n_objs += 1;
        }
        let _ = a;
        c.archives.push(Archive { members, bsd: 0 });
    }
    let n_lib = if crowd || t.chance(p.libs) { t.range(1, 3) } else { 0 };
    for l in 0..n_lib {
        let soname = match t.below(12) {
            0..=2 => Some(format!("libso{}.so.{}", l, l + 1)),
            3..=5 => None,
            6..=8 => Some(format!("other{}.so", l)),
            // what other strings of the output may be called as well
            9 => Some(format!("n{}", l)),
            10 => Some(t.pick(&["unused{}_0", "/opt/lib/so{}", "plain{}", "libso{}", "so{}.so.1.2.3", "lib+~{}.so", "alias{}_0"]).replace("{}", &l.to_string())),
            _ => Some("x".repeat(t.range(1, 300)) + &l.to_string()),
        };
        c.libs.push(Lib { soname, file: None, exports: vec![], undefs: vec![], locals: vec![], bare: t.chance(8), dotted: t.chance(15) });
    }
    // names
    // decided while there is tape left
    let (wide_crowd, crowd_calls) = (crowd && t.rare(500), crowd && t.chance(70));
    let n_names = if crowd { if wide_crowd { t.range(4230, 4500) } else if t.chance(25) { t.range(500, 700) } else { t.range(130, 300) } } else { t.range(p.names.0, p.names.1) };
    let list = make_names(t, n_names + 2, p.hash_names);
    let mut names: Vec<Name> = vec![];
    for n in list.into_iter().take(n_names) {
        let any = |t: &mut Tape| t.below(n_objs);
        let r = t.below(100);
        let plan = if crowd && r > 2 || wide_crowd && t.done() {
            Plan::Import { func: true }
        } else if n_lib > 0 && r >= 100 - 35 {
            Plan::Import { func: !t.chance(p.import_data) }
        } else if t.chance(p.weak_zero) {
            Plan::Nobody
        } else if t.chance(p.commons) {
            let mut objs = vec![t.below(n_exp)];
            for o in 0..n_exp {
                if t.chance(30) && !objs.contains(&o) {
                    objs.push(o);
                }
            }
            let rest: Vec<usize> = (0..n_exp).filter(|o| !objs.contains(o)).collect();
            let extra = |t: &mut Tape| if !rest.is_empty() && t.chance(30) { Some(*t.pick(&rest)) } else { None };
            let strong = extra(t);
            let weak = extra(t).filter(|o| Some(*o) != strong);
            Plan::Common { objs, strong, weak }
        } else if t.chance(p.abs) {
            let v = match t.below(5) {
                0 => t.below(0x1000) as u64,
                1 => 0,
                2 => t.below(0x7000_0000) as u64,
                3 => 0x1000_0000,
                _ => 0x7fff_ffff,
            };
            Plan::Abs(any(t), v)
        } else if t.chance(p.mess) {
            let mut v = vec![any(t)];
            if t.chance(60) {
                v.push(any(t));
            }
            // weak definitions in two archive members have no defined order
            let mut m = 0;
            v.retain(|o| {
                m += (*o >= n_exp) as usize;
                *o < n_exp || m < 2
            });
            v.dedup();
            Plan::WeakDef(v)
        } else {
            Plan::Def(any(t))
        };
        let wide = matches!(plan, Plan::Abs(..)) && t.chance(p.wide);
        let plan = match plan {
            Plan::Abs(o, _) if wide => Plan::Abs(o, *t.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 0xffff_ffff_8000_0000, 1 << 32, 0x1234_5678_9abc_def0])),
            x => x,
        };
        let mut locals = vec![];
        let mut weak_extra = vec![];
        if t.chance(p.mess) {
            for o in 0..n_objs {
                if t.chance(35) {
                    locals.push(o);
                }
            }
        }
        if t.chance(p.mess) && matches!(plan, Plan::Def(_) | Plan::Abs(..)) {
            for o in 0..n_exp {
                if t.chance(40) {
                    weak_extra.push(o);
                }
            }
        }
        names.push(Name { n, plan, locals, weak_extra, wide });
    }
    if t.chance(p.special) {
        for s in SPECIALS {
            if t.chance(60) {
                // the program may have its own idea of these
                let plan = if s.starts_with("__") && t.chance(12) { Plan::Def(t.below(n_exp)) } else { Plan::Special };
                names.push(Name { n: s.into(), plan, locals: vec![], weak_extra: vec![], wide: false });
            }
        }
    }
    let has_import = names.iter().any(|n| matches!(n.plan, Plan::Import { .. }));
    // sections
    for o in 0..n_objs {
        let mut ob = Obj { layout: t.below(3) as u8, tails: t.chance(30), rev: t.chance(30), ..Default::default() };
        let n_secs = t.range(p.secs.0, p.secs.1);
        for _ in 0..n_secs {
            let mut s = section(t, p);
            if t.chance(p.odd) {
                s.flags |= *t.pick(&[GROUP, GROUP, RETAIN, LINK_ORDER, LARGE, GROUP | RETAIN]);
            }
            ob.secs.push(s);
        }
        if t.chance(p.init) {
            for (n, ty) in [(".init_array", INIT_ARRAY), (".fini_array", FINI_ARRAY)] {
                if t.chance(60) {
                    ob.secs.push(ptr_array(t, n, ty));
                }
                if t.chance(25) {
                    for _ in 0..t.range(1, 3) {
                        let prio = match t.below(4) {
                            0 => t.below(65535),
                            1 => t.range(9998, 10002),
                            2 => t.below(12) * 9,
                            _ => t.range(101, 103),
                        };
                        let name = format!("{}.{:05}", n, prio);
                        if !ob.secs.iter().any(|s| s.name == name) {
                            ob.secs.push(ptr_array(t, &name, ty));
                        }
                    }
                }
            }
            if t.chance(12) {
                ob.secs.push(ptr_array(t, ".preinit_array", PREINIT_ARRAY));
            }
            if t.chance(10) {
                let (n, ty) = *t.pick(&[(".init_array.early", INIT_ARRAY), (".fini_array.x1", FINI_ARRAY), (".init_array.", INIT_ARRAY), (".init_array.1.2", INIT_ARRAY)]);
                ob.secs.push(ptr_array(t, n, ty));
            }
            if t.chance(10) {
                // which is none of the arrays that are announced
                let (n, ty) = *t.pick(&[("own_array", INIT_ARRAY), (".init_arrays", INIT_ARRAY), ("own_fini", FINI_ARRAY), ("own_preinit", PREINIT_ARRAY)]);
                ob.secs.push(Sec { name: n.into(), ty, flags: A | W, align: 8, entsize: 8, size: 8 * t.range(2, 5) as u64, data: vec![], tag: Some(0), rels: vec![] });
            }
            for n in [".init", ".fini"] {
                if t.chance(60) {
                    let align = *t.pick(&[1, 4, 16, 2]);
                    ob.secs.push(Sec { name: n.into(), ty: PROGBITS, flags: A | X, align, entsize: 0, size: t.range(8, 40) as u64, data: vec![], tag: Some(0), rels: vec![] });
                }
            }
        }
        if o == 0 && !ob.secs.iter().any(|s| s.flags & X != 0 && s.size > 0) {
            ob.secs.push(Sec { name: ".text".into(), ty: PROGBITS, flags: A | X, align: 16, entsize: 0, size: 16, data: vec![], tag: Some(0), rels: vec![] });
        }
        if t.chance(p.twin) {
            // nothing but their addresses tells these from one another
            let flags = *t.pick(&[A, A, A | W, A | X]);
            let size = *t.pick(&[16u64, 8, 32, 24]);
            let name = *t.pick(&["twin", ".rodata", ".rodata.cst16", ".data.v0"]);
            for _ in 0..t.range(2, 4) {
                let align = *t.pick(&[1u64, 8, 16]);
                ob.secs.push(Sec { name: name.into(), ty: PROGBITS, flags, align, entsize: 0, size, data: vec![], tag: None, rels: vec![] });
            }
        }
        // sections without a fingerprint are found through a pointer to them
        if !ob.secs.iter().any(|s| s.tag.is_some() && s.alloc() && s.name != ".init" && s.name != ".fini") {
            ob.secs.push(Sec { name: ".data".into(), ty: PROGBITS, flags: A | W, align: 8, entsize: 0, size: 8, data: vec![], tag: Some(0), rels: vec![] });
        }
        if t.chance(30) {
            t.shuffle(&mut ob.secs);
        }
        c.objs.push(ob);
    }
    // definitions
    let start_obj = t.below(n_exp);
    if !c.objs[start_obj].secs.iter().any(|s| s.flags & X != 0 && s.size > 0) {
        c.objs[start_obj].secs.push(Sec { name: ".text".into(), ty: PROGBITS, flags: A | X, align: 16, entsize: 0, size: 16, data: vec![], tag: Some(0), rels: vec![] });
    }
    for o in 0..n_objs {
        if t.chance(25) {
            c.objs[o].syms.push(Sym { name: format!("f{}.c", o % 2), bind: LOCAL, ty: T_FILE, vis: 0, place: Place::Abs(0), size: 0 });
        }
        for n in &names {
            if n.locals.contains(&o) {
                let s = define(t, &c.objs[o], &n.n, LOCAL);
                c.objs[o].syms.push(s);
                if t.chance(20) {
                    // two locals of one name, as partial linking makes them
                    let s = define(t, &c.objs[o], &n.n, LOCAL);
                    c.objs[o].syms.push(s);
                }
            }
            match &n.plan {
                Plan::Def(d) if *d == o => {
                    let s = define(t, &c.objs[o], &n.n, GLOBAL);
                    c.objs[o].syms.push(s);
                }
                Plan::Abs(d, v) if *d == o => {
                    let ty = *t.pick(&[T_NOTYPE, T_OBJECT]);
                    let bind = if t.chance(10) && n.weak_extra.is_empty() { WEAK } else { GLOBAL };
                    c.objs[o].syms.push(Sym { name: n.n.clone(), bind, ty, vis: 0, place: Place::Abs(*v), size: 0 });
                }
                Plan::Common { objs, strong, weak } => {
                    if objs.contains(&o) {
                        let align = match *t.pick(&[4u64, 8, 1, 16, 32, 64, 256, 4096]) {
                            4096 if t.chance(30) => 1 << t.range(13, 26),
                            a => a,
                        };
                        let size = match t.below(4) {
                            0 => *t.pick(&[4u64, 8, 1]),
                            1 => t.range(1, 300) as u64,
                            2 => t.range(1, 40) as u64,
                            _ => t.range(1, 10000) as u64,
                        };
                        c.objs[o].syms.push(Sym { name: n.n.clone(), bind: GLOBAL, ty: T_OBJECT, vis: 0, place: if t.chance(12) { Place::Large(align) } else { Place::Common(align) }, size });
                    } else if *strong == Some(o) || *weak == Some(o) {
                        let s = define(t, &c.objs[o], &n.n, if *strong == Some(o) { GLOBAL } else { WEAK });
                        c.objs[o].syms.push(s);
                    }
                }
                Plan::WeakDef(v) if v.contains(&o) => {
                    let s = define(t, &c.objs[o], &n.n, WEAK);
                    c.objs[o].syms.push(s);
                }
                Plan::Def(_) | Plan::Abs(..) if n.weak_extra.contains(&o) => {
                    let s = define(t, &c.objs[o], &n.n, WEAK);
                    c.objs[o].syms.push(s);
                }
                _ => {}
            }
        }
        let nl = t.below(3);
        for i in 0..nl {
            let n = if t.chance(40) { format!("loc{}", i) } else { format!("loc{}_{}", o, i) };
            let s = define(t, &c.objs[o], &n, LOCAL);
            c.objs[o].syms.push(s);
        }
        if o == start_obj {
            let x: Vec<usize> = (0..c.objs[o].secs.len()).filter(|s| c.objs[o].secs[*s].flags & X != 0 && c.objs[o].secs[*s].size > 0).collect();
            let s = *t.pick(&x);
            let off = t.below(c.objs[o].secs[s].size as usize) as u64;
            let bind = if t.chance(8) { WEAK } else { GLOBAL };
            c.objs[o].syms.push(Sym { name: "_start".into(), bind, ty: T_FUNC, vis: 0, place: Place::Sec(s, off), size: 0 });
        }
    }
    // libraries
    if has_import {
        for n in &names {
            if let Plan::Import { func } = n.plan {
                let l = t.below(n_lib);
                let e = export(t, &n.n, func);
                c.libs[l].exports.push(e);
                if t.chance(p.two_homes) && n_lib > 1 {
                    let e = export(t, &n.n, func);
                    c.libs[(l + 1) % n_lib].exports.push(e);
                }
            }
        }
    }
    for l in 0..n_lib {
        let extra = if t.chance(p.many_exports) { t.range(5, 40) } else { t.below(3) };
        for i in 0..extra {
            let f = t.chance(60);
            let e = export(t, &format!("unused{}_{}", l, i), f);
            c.libs[l].exports.push(e);
        }
        for n in &names {
            match &n.plan {
                Plan::Nobody if t.chance(40) => c.libs[l].undefs.push(n.n.clone()),
                // something the program defines and the library has as well
                Plan::Def(o) if (*o < n_exp || t.chance(30)) && t.chance(p.two_homes) => {
                    // what may be called instead of ours
                    let f = *o >= n_exp || t.chance(50);
                    let e = export(t, &n.n, f);
                    c.libs[l].exports.push(e);
                }
                Plan::WeakDef(_) if t.chance(p.two_homes) => {
                    let e = export(t, &n.n, true);
                    c.libs[l].exports.push(e);
                }
                Plan::Def(_) if t.chance(10) => c.libs[l].undefs.push(n.n.clone()),
                _ => {}
            }
            if t.rare(200) && !c.libs[l].exports.iter().any(|e| e.name == n.n) && !c.libs[l].undefs.contains(&n.n) {
                c.libs[l].locals.push(n.n.clone());
            }
        }
        if t.chance(30) {
            // one object under several names
            for i in 0..t.range(1, 4) {
                let objs: Vec<usize> = (0..c.libs[l].exports.len()).filter(|e| !c.libs[l].exports[*e].func).collect();
                if objs.is_empty() {
                    break;
                }
                let base = &c.libs[l].exports[c.libs[l].home(*t.pick(&objs))];
                let (name, size, align) = (base.name.clone(), base.size, base.align);
                let size = if t.chance(30) { t.range(1, size as usize) as u64 } else { size };
                let other = *t.pick(&objs);
                let weak = t.chance(50);
                let e = &mut c.libs[l].exports[other];
                if e.name != name && e.alias.is_none() && t.chance(50) {
                    // what was an alias of this one is now on its own
                    (e.size, e.align, e.alias) = (size, align, Some(name));
                } else {
                    c.libs[l].exports.push(Export { name: format!("alias{}_{}", if t.chance(20) { 0 } else { l }, i), func: false, weak, size, align, alias: Some(name), untyped: false, unique: false });
                }
            }
        }
        if t.chance(30) {
            let mut e = std::mem::take(&mut c.libs[l].exports);
            t.shuffle(&mut e);
            c.libs[l].exports = e;
        }
    }
    if has_pile {
        pile(t, &mut c, n_exp);
    }
    // contents
    for o in 0..n_objs {
        contents(t, p, &mut c, o, &names);
    }
    if has_legion {
        legion(t, &mut c);
    }
    if crowd {
        // one section that refers to all of them
        let o = t.below(n_exp);
        let code = crowd_calls;
        let (mut data, mut rels) = (tag_bytes(o, c.objs[o].secs.len()).to_vec(), vec![]);
        for n in &names {
            if !matches!(n.plan, Plan::Import { .. }) {
                continue;
            }
            let k = reference(t, &mut c, o, &n.n, 0);
            if code {
                data.extend([0xe8, 0, 0, 0, 0]);
                rels.push(Rel { off: data.len() as u64 - 4, kind: R_PLT32, tgt: Tgt::Sym(k), addend: -4 });
            } else {
                data.extend([0; 8]);
                rels.push(Rel { off: data.len() as u64 - 8, kind: R_64, tgt: Tgt::Sym(k), addend: 0 });
            }
        }
        let (name, flags) = if code { ("many_x", A | X) } else { ("many_w", A | W) };
        c.objs[o].secs.push(Sec { name: name.into(), ty: PROGBITS, flags, align: 8, entsize: 0, size: data.len() as u64, data, tag: Some(0), rels });
    }
    if has_swarm {
        swarm(t, &mut c, n_exp);
    }
    if is_horde && n_exp > 1 {
        for part in 0..3 {
            c.objs[part % n_exp].tails = false;
            // one object has this limit, too
            let o = part % n_exp;
            let flags = *t.pick(&[A, A | W, 0]);
            for i in 0..t.range(21_800, 22_000) {
                let data = tag_bytes(o, c.objs[o].secs.len()).to_vec();
                c.objs[o].secs.push(Sec { name: format!("horde{}_{}", part, i), ty: PROGBITS, flags, align: 1, entsize: 0, size: 8, data, tag: Some(0), rels: vec![] });
            }
        }
    }
    if is_rainbow {
        // flags which mean something to other systems
        let o = t.below(n_exp);
        let n = t.pick(&[300, 1100, 1130, 1180, 1300, 1700]) + t.below(40);
        let kinds = [A, A | W, A | X, A | W | X];
        let first = t.below(2048);
        for i in 0..n {
            let k = (first + i * 5) % 2048;
            let flags = kinds[k % 4] | (((k / 4) % 256) as u64) << 20 | ((k / 1024) as u64) << 28;
            let data = tag_bytes(o, c.objs[o].secs.len()).to_vec();
            c.objs[o].secs.push(Sec { name: format!("rainbow{}", i), ty: PROGBITS, flags, align: 1 << t.below(5), entsize: 0, size: 8, data, tag: Some(0), rels: vec![] });
        }
    }
    if has_sea {
        // the indexes of the symbols after these need more than 16 bits
        let o = t.below(n_exp);
        let (n, m) = (t.range(65_200, 66_500), *t.pick(&[1, 100, 70_000]));
        let s = define(t, &c.objs[o], "sea", LOCAL);
        c.objs[o].tails = false;
        c.objs[o].syms.extend((0..n).map(|i| Sym { name: format!("sea{}", i % m), ..s.clone() }));
    }
    if is_vast {
        let o = t.below(n_exp);
        let at = c.objs[o].secs.len();
        let mut data = tag_bytes(o, at).to_vec();
        let mut rels = vec![];
        let mut sizes: Vec<u64> = (0..t.range(1, 4)).map(|_| *t.pick(&[1 << 32, (1 << 32) + 40, (1 << 31) + 8, 64, 100, u32::MAX as u64])).collect();
        if t.chance(40) {
            // about as much as the address space holds, or more
            sizes = (0..*t.pick(&[100, 126, 128, 131, 200, 300])).map(|_| 1 << 40).collect();
        }
        for k in 0..sizes.len() {
            rels.push(Rel { off: data.len() as u64, kind: R_64, tgt: Tgt::Sec(at + 1 + k), addend: 0 });
            data.extend([0; 8]);
        }
        c.objs[o].secs.push(Sec { name: "vast_d".into(), ty: PROGBITS, flags: A | W, align: 8, entsize: 0, size: data.len() as u64, data, tag: Some(0), rels });
        let align = *t.pick(&[1, 8, 64]);
        let name = *t.pick(&[".vast", ".vast", ".vast", ".bss"]);
        for size in sizes {
            c.objs[o].secs.push(Sec { name: name.into(), ty: NOBITS, flags: A | W | if name == ".vast" { X } else { 0 }, align, entsize: 0, size, data: vec![], tag: None, rels: vec![] });
        }
    }
    if t.chance(p.chain) {
        chain(t, &mut c, n_exp);
    }
    if t.chance(6) {
        unique(t, &mut c);
    }
    for a in &mut c.archives {
        a.bsd = bsd;
    }
    // command line
    let mut order: Vec<usize> = (0..n_exp).collect();
    t.shuffle(&mut order);
    let mut inputs: Vec<Input> = order.into_iter().map(Input::Obj).collect();
    for a in 0..c.archives.len() {
        for _ in 0..if t.chance(p.twice) { 2 } else { 1 } {
            let at = t.below(inputs.len() + 1);
            inputs.insert(at, Input::Ar(a));
        }
    }
    for l in 0..n_lib {
        for _ in 0..if t.chance(p.twice) { 2 } else { 1 } {
            let at = t.below(inputs.len() + 1);
            inputs.insert(at, Input::Lib(l));
        }
    }
    if n_lib > 0 {
        for b in [true, false, true] {
            if t.chance(p.as_needed) {
                let at = t.below(inputs.len() + 1);
                inputs.insert(at, Input::AsNeeded(b));
            }
        }
    }
    c.inputs = inputs;
    c.umask = t.chance(10).then(|| *t.pick(&[0o077, 0o002, 0, 0o027]));
    c.hash_style = match t.below(6) {
        0..=2 => None,
        3 => Some("gnu".into()),
        4 => Some("sysv".into()),
        _ => Some("both".into()),
    };
    if t.chance(10) {
        c.interp = Some(t.pick(&["/lib/ld.so", "/nix/store/abc/lib/ld-linux-x86-64.so.2", "/x"]).to_string());
    }
    c
}

/// Makes definitions of which there are no others unique in the whole process.
fn unique(t: &mut Tape, c: &mut Case) {
    let mut defs: std::collections::BTreeMap<String, Vec<(usize, usize)>> = Default::default();
    for (o, obj) in c.objs.iter().enumerate() {
        for (k, s) in obj.syms.iter().enumerate() {
            if s.bind != LOCAL && s.place != Place::Undef {
                defs.entry(s.name.clone()).or_default().push((o, k));
            }
        }
    }
    for at in defs.into_values() {
        let s = &mut c.objs[at[0].0].syms[at[0].1];
        if at.len() == 1 && s.ty == T_OBJECT && matches!(s.place, Place::Sec(..)) && t.chance(50) {
            s.bind = 10;
        }
    }
}

/// Several hundred output sections.
fn swarm(t: &mut Tape, c: &mut Case, n_exp: usize) {
    let o = t.below(n_exp);
    let n = t.range(240, 700);
    let first = c.objs[o].secs.len();
    let mixed = t.chance(50);
    let flags: Vec<u64> = (0..n).map(|_| *t.pick(if mixed { &[A, A | W, A | X, 0] } else { &[A] })).collect();
    let loaded: Vec<usize> = (0..n).filter(|i| flags[*i] & A != 0).collect();
    for i in 0..n {
        let flags = flags[i];
        let mut data = tag_bytes(o, first + i).to_vec();
        let mut rels = vec![];
        if t.chance(20) && !loaded.is_empty() {
            rels.push(Rel { off: 8, kind: R_64, tgt: Tgt::Sec(first + t.pick(&loaded)), addend: t.below(8) as i64 });
            data.extend([0; 8]);
        }
        c.objs[o].secs.push(Sec { name: format!("swarm{}", i), ty: PROGBITS, flags, align: 1 << t.below(5), entsize: 0, size: data.len() as u64, data, tag: Some(0), rels });
    }
    for i in 0..t.range(1, 20) {
        let s = first + t.below(n);
        if c.objs[o].secs[s].alloc() {
            let bind = *t.pick(&[GLOBAL, LOCAL, WEAK]);
            c.objs[o].syms.push(Sym { name: format!("in_swarm{}", i), bind, ty: T_NOTYPE, vis: 0, place: Place::Sec(s, t.below(8) as u64), size: 0 });
        }
    }
}

/// Dozens of parts of one output section.
fn pile(t: &mut Tape, c: &mut Case, n_exp: usize) {
    let kind = t.below(7);
    for _ in 0..t.range(21, 70) {
        let o = t.below(n_exp);
        let align = 1 << t.below(6);
        let sec = match kind {
            0 => ptr_array(t, ".init_array", INIT_ARRAY),
            1 => ptr_array(t, ".fini_array", FINI_ARRAY),
            k => {
                let (name, ty, flags) = [(".text", PROGBITS, A | X), (".data", PROGBITS, A | W), (".rodata", PROGBITS, A), (".bss", NOBITS, A | W), (".init", PROGBITS, A | X)][k - 2];
                let tag = if ty == NOBITS { None } else { Some(0) };
                Sec { name: name.into(), ty, flags, align, entsize: 0, size: t.range(8, 40) as u64, data: vec![], tag, rels: vec![] }
            }
        };
        c.objs[o].secs.push(sec);
    }
}

/// Members each of which needs the next one.
fn chain(t: &mut Tape, c: &mut Case, n_exp: usize) {
    let n = t.range(3, 9);
    let mut ars: Vec<Archive> = (0..t.range(1, 2)).map(|_| Archive { members: vec![], bsd: 0 }).collect();
    for i in 0..n {
        let o = c.objs.len();
        let last = i + 1 == n;
        let mut data = tag_bytes(o, 0).to_vec();
        let mut syms = vec![Sym { name: format!("link{}", i), bind: GLOBAL, ty: T_FUNC, vis: 0, place: Place::Sec(0, 0), size: 4 }];
        let mut rels = vec![];
        let next = if !last {
            Some(i + 1)
        } else if t.chance(30) {
            // back into the chain
            Some(t.below(n))
        } else {
            None
        };
        if let Some(x) = next {
            let k = if x == i {
                0
            } else {
                syms.push(Sym { name: format!("link{}", x), bind: GLOBAL, ty: T_NOTYPE, vis: 0, place: Place::Undef, size: 0 });
                1
            };
            data.extend([0xe9, 0, 0, 0, 0]);
            rels.push(Rel { off: 9, kind: R_PLT32, tgt: Tgt::Sym(k), addend: -4 });
        }
        c.objs.push(Obj { secs: vec![Sec { name: ".text".into(), ty: PROGBITS, flags: A | X, align: 16, entsize: 0, size: data.len() as u64, data, tag: Some(0), rels }], syms, ..Default::default() });
        let a = t.below(ars.len());
        ars[a].members.push((format!("link{}.o", i), o));
    }
    for a in &mut ars {
        if t.chance(70) {
            t.shuffle(&mut a.members);
        }
    }
    let o = t.below(n_exp);
    let k = reference(t, c, o, "link0", 5);
    let mut data = tag_bytes(o, c.objs[o].secs.len()).to_vec();
    data.extend([0; 8]);
    c.objs[o].secs.push(Sec { name: "chain_w".into(), ty: PROGBITS, flags: A | W, align: 8, entsize: 0, size: 16, data, tag: Some(0), rels: vec![Rel { off: 8, kind: R_64, tgt: Tgt::Sym(k), addend: 0 }] });
    ars.retain(|a| !a.members.is_empty());
    c.archives.extend(ars);
}

pub fn export(t: &mut Tape, n: &str, func: bool) -> Export {
    let size = match t.below(6) {
        0..=2 => *t.pick(&[8u64, 4, 1, 16]),
        3 => t.range(1, 24) as u64,
        4 => t.range(1, 300) as u64,
        _ => *t.pick(&[32u64, 64, 40, 4096]),
    };
    // objects are as aligned as their size suggests, like compilers make them
    let align = if func { 16 } else { 1 << size.trailing_zeros().min(if t.chance(30) { 12 } else { 6 }) };
    let weak = t.chance(20);
    Export { name: n.into(), func, weak, size: if func { 6 } else { size }, align, alias: None, untyped: func && t.chance(10), unique: !func && t.chance(6) }
}

fn align(t: &mut Tape, high: usize) -> u64 {
    if t.chance(high) {
        // more than a page now and then
        let most = match t.below(20) {
            0..=5 => 1 << t.range(13, 16),
            // huge pages; the padding is written to the file
            6 => 1 << t.range(17, 22),
            _ => 4096,
        };
        *t.pick(&[64, 128, 256, 512, 1024, 2048, 4096, most])
    } else {
        *t.pick(&[1u64, 8, 16, 4, 2, 32, 0, 64])
    }
}

/// Names which are almost, but not quite, those of sections with a meaning.
const ALMOST: &[(&str, u32, u64)] = &[
    (".interp2", PROGBITS, A),
    (".interp.x", PROGBITS, A),
    (".init.text", PROGBITS, A | X),
    (".initial", PROGBITS, A | X),
    (".finish", PROGBITS, A | X),
    (".got.more", PROGBITS, A | W),
    (".got.plt2", PROGBITS, A | W),
    (".plt.own", PROGBITS, A | X),
    (".dynamics", PROGBITS, A | W),
    (".dynstr.x", PROGBITS, A),
    (".rela.dynx", PROGBITS, A),
    (".rela.plt.x", PROGBITS, A),
    (".hashes", PROGBITS, A),
    (".gnu.hash.x", PROGBITS, A),
    (".copyrels", NOBITS, A | W),
    (".bssx", PROGBITS, A | W),
    (".databss", NOBITS, A | W),
    ("init", PROGBITS, A | X),
    ("got", PROGBITS, A | W),
    (".init_array_x", PROGBITS, A | W),
    ("x.init_array", PROGBITS, A | W),
    (".INIT", PROGBITS, A | X),
];

fn section(t: &mut Tape, p: &Profile) -> Sec {
    if t.rare(60) {
        let (name, ty, flags) = *t.pick(ALMOST);
        let size = t.range(8, 64) as u64;
        let tag = if ty == NOBITS { None } else { Some(0) };
        return Sec { name: name.into(), ty, flags, align: align(t, p.high_align), entsize: 0, size, data: vec![], tag, rels: vec![] };
    }
    if t.rare(15) {
        // takes up no space in the file, and is far beyond everything in memory
        let align = 1 << t.range(20, 27);
        let name = format!(".far.bss{}", t.below(2));
        return Sec { name, ty: NOBITS, flags: A | W, align, entsize: 0, size: t.range(1, 5000) as u64, data: vec![], tag: None, rels: vec![] };
    }
    let kind = if t.chance(p.nobits) {
        t.pick(NOBITS_KINDS)
    } else if t.chance(p.nonalloc) {
        t.pick(NONALLOC_KINDS)
    } else if p.debug_only && t.chance(60) {
        t.pick(&KINDS[..4])
    } else {
        t.pick(KINDS)
    };
    if t.chance(p.same_name) {
        // the parts of one output section differ in what they need
        let flags = *t.pick(&[A, A | W, A | X, A | W, 0]);
        let ty = if flags == A | W && t.chance(40) { NOBITS } else if flags & X == 0 && t.chance(15) { NOTE } else { PROGBITS };
        let size = if ty == NOBITS && t.chance(15) { t.range(1000, 20_000) } else { t.range(8, 64) } as u64;
        let tag = if ty == NOBITS { None } else { Some(0) };
        return Sec { name: "mixed".into(), ty, flags, align: align(t, p.high_align), entsize: 0, size, data: vec![], tag, rels: vec![] };
    }
    let mut name = kind.name.to_string();
    if kind.numbered {
        name += &t.below(3).to_string();
    }
    let nobits = kind.ty == NOBITS;
    let alloc = kind.flags & A != 0;
    let mut size = if t.chance(p.zero) {
        0
    } else if t.chance(p.tiny) {
        t.range(1, 7)
    } else if t.chance(p.big) {
        match t.below(4) {
            0 => 4096,
            1 => t.range(4080, 4112),
            2 => t.range(8100, 8300),
            _ => t.range(60_000, 75_000),
        }
    } else if t.chance(30) {
        t.range(64, 400)
    } else {
        t.range(8, 64)
    };
    if nobits && t.chance(p.huge_bss) {
        size = *t.pick(&[1 << 16, 1 << 20, 1 << 24, (1 << 26) + 5, 1 << 22]);
    }
    if !alloc && size > 0 {
        size = size.max(8);
    }
    let al = if kind.name == ".note.GNU-stack" {
        size = 0;
        1
    } else if alloc {
        align(t, p.high_align)
    } else {
        *t.pick(&[1u64, 1, 8, 4, 0])
    };
    let tag = if !nobits && size >= 8 { Some(0) } else { None };
    Sec { name, ty: kind.ty, flags: kind.flags, align: al, entsize: kind.ent, size: size as u64, data: vec![], tag, rels: vec![] }
}

fn ptr_array(t: &mut Tape, name: &str, ty: u32) -> Sec {
    let n = t.range(1, 4);
    // some assemblers don't know the type
    let ty = if t.chance(12) { PROGBITS } else { ty };
    Sec { name: name.into(), ty, flags: A | W, align: 8, entsize: 8, size: 8 * n as u64, data: vec![], tag: None, rels: vec![] }
}

/// Makes one of the arrays long.
fn legion(t: &mut Tape, c: &mut Case) {
    let v: Vec<(usize, usize)> = (0..c.objs.len()).flat_map(|o| (0..c.objs[o].secs.len()).map(move |s| (o, s))).filter(|(o, s)| {
        let x = &c.objs[*o].secs[*s];
        x.array().is_some() && !x.rels.is_empty() && x.size as usize == x.data.len()
    }).collect();
    if v.is_empty() {
        return;
    }
    let (o, s) = *t.pick(&v);
    let n = if t.chance(20) { t.range(4000, 9000) } else { t.range(500, 800) };
    let x = &mut c.objs[o].secs[s];
    let (had, old) = (x.data.len() / 8, x.rels.clone());
    for k in had..n {
        let r = &old[k % old.len()];
        x.rels.push(Rel { off: 8 * k as u64, kind: R_64, tgt: r.tgt.clone(), addend: r.addend + (k as i64 * 7) % 64 });
    }
    x.data.resize(8 * n, 0);
    x.size = 8 * n as u64;
}

fn define(t: &mut Tape, o: &Obj, n: &str, bind: u8) -> Sym {
    // in a loaded section, which rarely is an empty one
    let empty = t.chance(3) && o.secs.iter().any(|s| s.alloc() && s.size == 0);
    let v: Vec<usize> = (0..o.secs.len()).filter(|s| o.secs[*s].alloc() && (o.secs[*s].size == 0) == empty).collect();
    let s = *t.pick(&v);
    let size = o.secs[s].size;
    let off = match t.below(8) {
        0 | 1 => 0,
        7 => size,
        _ if size == 0 => 0,
        _ => t.below(size.min(1 << 30) as usize) as u64,
    };
    let ty = if o.secs[s].flags & X != 0 { *t.pick(&[T_FUNC, T_NOTYPE, T_OBJECT]) } else { *t.pick(&[T_OBJECT, T_NOTYPE]) };
    let vis = if bind == LOCAL { 0 } else { *t.pick(&[0, 0, 0, 0, 0, 0, 2, 3]) };
    Sym { name: n.into(), bind, ty, vis, place: Place::Sec(s, off), size: if t.chance(50) { t.below(100) as u64 } else { 0 } }
}

/// symbol index standing for `name` in object `o` (adding an undefined entry if need be)
pub fn reference(t: &mut Tape, c: &mut Case, o: usize, n: &str, weak_pct: usize) -> usize {
    if let Some(k) = c.objs[o].syms.iter().position(|s| s.name == n && s.bind != LOCAL) {
        return k;
    }
    let bind = if t.chance(weak_pct) { WEAK } else { GLOBAL };
    c.objs[o].syms.push(Sym { name: n.into(), bind, ty: T_NOTYPE, vis: 0, place: Place::Undef, size: 0 });
    c.objs[o].syms.len() - 1
}

struct Slot {
    pre: Vec<u8>,
    post: Vec<u8>,
    width: usize,
    kind: u32,
    tgt: Tgt,
    addend: i64,
}

fn contents(t: &mut Tape, p: &Profile, c: &mut Case, o: usize, names: &[Name]) {
    let n_secs = c.objs[o].secs.len();
    let anchor_of = |c: &Case| (0..n_secs).find(|s| c.objs[o].secs[*s].tag.is_some() && c.objs[o].secs[*s].alloc() && ![".init", ".fini"].contains(&&c.objs[o].secs[*s].name[..]));
    let anchor = anchor_of(c);
    for s in 0..n_secs {
        let sec = &c.objs[o].secs[s];
        let (size, tagged, nobits) = (sec.size as usize, sec.tag.is_some(), sec.nobits());
        if nobits || size == 0 {
            continue;
        }
        let (is_x, alloc) = (sec.flags & X != 0, sec.alloc());
        let fixed = sec.array().is_some();
        let init_code = sec.name == ".init" || sec.name == ".fini";
        let twin = !tagged && !fixed && size >= 8;
        let mut slots: Vec<Slot> = vec![];
        if fixed {
            for _ in 0..size / 8 {
                let tgt = target(t, p, c, o, names, R_64, false, true);
                let addend = if t.chance(20) { t.below(64) as i64 } else { 0 };
                slots.push(Slot { pre: vec![], post: vec![], width: 8, kind: R_64, tgt, addend });
            }
        } else {
            if Some(s) == anchor {
                for k in 0..n_secs {
                    let q = &c.objs[o].secs[k];
                    if q.alloc() && q.tag.is_none() {
                        slots.push(Slot { pre: vec![], post: vec![], width: 8, kind: R_64, tgt: Tgt::Sec(k), addend: 0 });
                    }
                }
            }
            let n = if twin { 0 } else { t.range(p.slots.0, p.slots.1) };
            for _ in 0..n {
                let sl = slot(t, p, c, o, names, is_x && !init_code, alloc);
                slots.push(sl);
            }
        }
        // lay out
        let seed = if t.chance(90) && !twin { t.raw() } else { 0 };
        let tag_at = t.below(slots.len() + 1);
        let mut data: Vec<u8> = vec![];
        let mut rels = vec![];
        let mut tag = None;
        let need: usize = slots.iter().map(|s| s.pre.len() + s.width + s.post.len()).sum::<usize>() + if tagged { 8 } else { 0 };
        let mut spare = size.saturating_sub(need);
        if !tagged && !fixed && need > size {
            // too small for any field
            slots.clear();
            spare = size;
        }
        let total = slots.len();
        let mut gap = |t: &mut Tape, data: &mut Vec<u8>, last: bool| {
            if fixed {
                return;
            }
            let n = if last {
                spare
            } else {
                match t.below(4) {
                    0 => 0,
                    1 => t.below(8).min(spare),
                    _ => t.below(spare / 2 + 1),
                }
            };
            for _ in 0..n {
                data.push(filler(seed, data.len()));
            }
            spare -= n;
        };
        let tail = t.chance(50);
        for (i, sl) in slots.into_iter().enumerate() {
            if tagged && i == tag_at {
                gap(t, &mut data, false);
                tag = Some(data.len() as u64);
                data.extend(tag_bytes(o, s));
            }
            // sometimes the last field ends the section
            gap(t, &mut data, tail && i + 1 == total && tag.is_some());
            data.extend(&sl.pre);
            let off = data.len() as u64;
            for k in 0..sl.width {
                // what the field held before must not matter
                data.push(filler(seed ^ 0x5555, k));
            }
            data.extend(&sl.post);
            rels.push(Rel { off, kind: sl.kind, tgt: sl.tgt, addend: sl.addend });
        }
        if tagged && tag.is_none() {
            gap(t, &mut data, false);
            tag = Some(data.len() as u64);
            data.extend(tag_bytes(o, s));
        }
        gap(t, &mut data, true);
        if t.chance(25) {
            t.shuffle(&mut rels);
        }
        let sec = &mut c.objs[o].secs[s];
        if sec.entsize > 1 {
            while data.len() % sec.entsize as usize != 0 {
                data.push(0x11);
            }
        }
        sec.size = data.len() as u64;
        sec.data = data;
        sec.rels = rels;
        sec.tag = tag;
    }
    // symbols stay within their sections, which may have grown only
}

fn slot(t: &mut Tape, p: &Profile, c: &mut Case, o: usize, names: &[Name], is_x: bool, alloc: bool) -> Slot {
    let mut s = Slot { pre: vec![], post: vec![], width: 4, kind: 0, tgt: Tgt::Null, addend: 0 };
    if !alloc {
        s.kind = *t.pick(&[R_64, R_32]);
        s.width = if s.kind == R_64 { 8 } else { 4 };
        s.tgt = target(t, p, c, o, names, s.kind, true, false);
        s.addend = if t.chance(60) { t.below(40) as i64 } else { 0 };
        return s;
    }
    if is_x && t.chance(p.got) {
        s.addend = -4;
        match t.below(21) / 2 {
            10 => {
                // an index into the table
                s.kind = R_GOT32;
                s.addend = *t.pick(&[0, 0, 0, 8, -8, 3]);
            }
            9 => {
                // the same with a 32-bit register
                s.kind = R_GOTPCRELX;
                s.pre = if t.chance(8) {
                    // to push it or to jump to it like a call far away does
                    vec![0xff, *t.pick(&[0x35, 0x35, 0x1d, 0x2d])]
                } else {
                    vec![*t.pick(&[0x3b, 0x85, 0x03, 0x8b, 0x2b, 0x33]), 0x05 | (t.below(8) as u8) << 3]
                };
            }
            6 => {
                // cmp, test or add with the address, which stays in its slot
                let reg = t.below(16) as u8;
                s.kind = R_REX_GOTPCRELX;
                s.pre = vec![if t.chance(10) { 0x40 } else { 0x48 } | (reg >> 3) << 2, *t.pick(&[0x3b, 0x85, 0x03, 0x0b, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x39, 0x89]), 0x05 | (reg & 7) << 3];
            }
            7 => {
                let reg = t.below(16) as u8;
                s.kind = R_GOTPCREL;
                s.pre = vec![0x48 | (reg >> 3) << 2, *t.pick(&[0x39, 0x8b, 0x3b]), 0x05 | (reg & 7) << 3];
            }
            8 => {
                s.kind = R_GOTPCREL;
                s.pre = vec![0x48, 0x83, 0x3d];
                s.post = vec![1];
                s.addend = -5;
            }
            0 => {
                s.kind = R_GOTPCRELX;
                s.pre = vec![0xff, 0x15];
            }
            1 => {
                s.kind = R_GOTPCRELX;
                s.pre = vec![0xff, 0x25];
            }
            _ => {
                let reg = t.below(16) as u8;
                s.kind = R_REX_GOTPCRELX;
                s.pre = vec![0x48 | (reg >> 3) << 2, 0x8b, 0x05 | (reg & 7) << 3];
            }
        }
        if s.addend == -4 && t.chance(3) {
            // beside the slot
            s.addend = *t.pick(&[4i64, -12, 0, -3, 1]);
        }
        s.tgt = target(t, p, c, o, names, s.kind, false, false);
        return s;
    }
    if t.rare(50) {
        s.kind = R_GOT32;
        s.addend = *t.pick(&[0, 0, 0, 8, -8, 3]);
        s.tgt = target(t, p, c, o, names, s.kind, false, false);
        return s;
    }
    s.kind = if is_x { *t.pick(&[R_64, R_PC32, R_PLT32, R_32S, R_32, R_PLT32, R_PC32]) } else { *t.pick(&[R_64, R_64, R_64, R_PC32, R_32, R_32S]) };
    if t.chance(3) {
        s.kind = R_NONE;
    }
    if s.kind == R_64 {
        s.width = 8;
    }
    s.tgt = target(t, p, c, o, names, s.kind, false, false);
    match s.kind {
        R_PLT32 => {
            s.pre = t.pick(&[vec![0xe8], vec![0xe9], vec![0x0f, 0x84]]).clone();
            s.addend = if t.chance(90) { -4 } else { t.below(100) as i64 - 50 };
        }
        R_PC32 => {
            if is_x {
                s.pre = t.pick(&[vec![0x48, 0x8d, 0x05], vec![0xe8], vec![0x8b, 0x0d], vec![0xc7, 0x05]]).clone();
                s.addend = -4;
                if s.pre[0] == 0xc7 {
                    s.post = vec![1, 2, 3, 4];
                    s.addend = -8;
                }
            }
            if s.pre.first() != Some(&0xe8) && t.chance(40) {
                s.addend += pc_addend(t);
            }
        }
        R_64 => {
            s.addend = match t.below(8) {
                0..=3 => 0,
                4 => t.below(4096) as i64,
                5 => -(t.below(4096) as i64),
                6 => t.raw64() as i64,
                _ => *t.pick(&[i64::MIN, i64::MAX, -1, 1 << 32, -(1 << 32)]),
            }
        }
        R_32 => {
            s.addend = match t.below(4) {
                0 | 1 => 0,
                2 => t.below(4096) as i64,
                _ => t.below(0x7000_0000) as i64,
            }
        }
        R_32S => {
            s.addend = match t.below(4) {
                0 | 1 => 0,
                2 => t.below(8192) as i64 - 4096,
                _ => -(t.below(0x7000_0000) as i64),
            };
            // absolute symbols may already be close to the limit
            if s.addend > 0 {
                s.addend = -s.addend;
            }
        }
        _ => {}
    }
    if s.kind == R_32 {
        // keep the sum within 32 bits
        if let Tgt::Sym(k) = s.tgt {
            if let Place::Abs(v) = c.objs[o].syms[k].place {
                s.addend = s.addend.min(0xffff_ffff - v.min(0xffff_ffff) as i64);
            }
        }
    }
    s
}

fn pc_addend(t: &mut Tape) -> i64 {
    match t.below(3) {
        0 => t.below(256) as i64 - 128,
        1 => t.below(0x3000_0000) as i64,
        _ => -(t.below(0x3000_0000) as i64),
    }
}

/// Something a field of this kind may refer to.
#[allow(clippy::too_many_arguments)]
fn target(t: &mut Tape, p: &Profile, c: &mut Case, o: usize, names: &[Name], kind: u32, debug: bool, code: bool) -> Tgt {
    let got = [R_GOT32, R_GOTPCREL, R_GOTPCRELX, R_REX_GOTPCRELX].contains(&kind);
    for _ in 0..4 {
        let r = t.below(10);
        if r >= 6 && r < 8 && !got {
            // a section symbol
            let v: Vec<usize> = (0..c.objs[o].secs.len())
                .filter(|s| {
                    let x = &c.objs[o].secs[*s];
                    x.size > 0 && (x.alloc() || (debug && x.tag.is_some()))
                })
                .collect();
            return Tgt::Sec(*t.pick(&v));
        }
        if r == 8 {
            let v: Vec<usize> = (0..c.objs[o].syms.len()).filter(|k| c.objs[o].syms[*k].bind == LOCAL && matches!(c.objs[o].syms[*k].place, Place::Sec(..))).collect();
            if v.is_empty() {
                continue;
            }
            return Tgt::Sym(*t.pick(&v));
        }
        if r == 9 && !got && !code && t.chance(30) {
            return Tgt::Null;
        }
        if names.is_empty() {
            continue;
        }
        let n = t.pick(names);
        match n.plan {
            Plan::Import { func } => {
                if debug || code || (kind == R_PLT32 && !func) {
                    continue;
                }
                // calls through the GOT are made to functions only
                if kind == R_GOTPCRELX && !func {
                    continue;
                }
            }
            Plan::Special => {
                if debug || got || code || kind == R_PLT32 {
                    continue;
                }
            }
            Plan::Abs(_, v) => {
                if code || (n.wide && kind != R_64) || (n.wide && got) {
                    continue;
                }
                // leave room for addends and places
                if v > 0x7000_0000 && kind != R_64 && kind != R_32 {
                    continue;
                }
                if (kind == R_PC32) && v > 0x4000_0000 {
                    continue;
                }
            }
            Plan::Nobody => {
                if code {
                    continue;
                }
            }
            _ => {}
        }
        let weak = match n.plan {
            Plan::Nobody => 100,
            _ => 15,
        };
        let name = n.n.clone();
        let k = reference(t, c, o, &name, weak);
        let _ = p;
        return Tgt::Sym(k);
    }
    // always possible
    if got || t.chance(50) {
        let v: Vec<usize> = (0..c.objs[o].syms.len()).filter(|k| c.objs[o].syms[*k].bind == LOCAL && matches!(c.objs[o].syms[*k].place, Place::Sec(..))).collect();
        if let Some(k) = v.first() {
            return Tgt::Sym(*k);
        }
        let s = define(t, &c.objs[o], "fallback", LOCAL);
        c.objs[o].syms.push(s);
        return Tgt::Sym(c.objs[o].syms.len() - 1);
    }
    let v: Vec<usize> = (0..c.objs[o].secs.len()).filter(|s| c.objs[o].secs[*s].size > 0 && c.objs[o].secs[*s].alloc()).collect();
    Tgt::Sec(*t.pick(&v))
}
