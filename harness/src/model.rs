//! Reference model: which objects are linked and what every name resolves to.
use crate::case::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Def { obj: usize, sym: usize },
    Import { lib: usize, exp: usize },
    Special(Special),
    /// no definition but common symbols: (object, symbol) of the first, largest size and alignment
    Common { obj: usize, sym: usize, size: u64, align: u64 },
    WeakZero,
    Unresolved,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Special {
    Got,
    InitStart,
    InitEnd,
    FiniStart,
    FiniEnd,
}

pub fn special(n: &str) -> Option<Special> {
    Some(match n {
        "_GLOBAL_OFFSET_TABLE_" => Special::Got,
        "__init_array_start" => Special::InitStart,
        "__init_array_end" => Special::InitEnd,
        "__fini_array_start" => Special::FiniStart,
        "__fini_array_end" => Special::FiniEnd,
        _ => return None,
    })
}

#[derive(Debug, Default)]
pub struct Model {
    /// objects linked: explicit ones in command-line order, then archive members
    pub loaded: Vec<usize>,
    pub explicit: Vec<usize>,
    pub names: BTreeMap<String, ResInfo>,
    pub dup: BTreeSet<String>,
    pub undef: BTreeSet<String>,
    /// per library: Some(true) must be listed, Some(false) must not, None may
    pub needed: Vec<Option<bool>>,
    /// libraries in order of first appearance
    pub lib_order: Vec<usize>,
}

#[derive(Debug, Clone)]
pub struct ResInfo {
    pub res: Res,
    pub strong_ref: bool,
}

pub fn resolve(c: &Case) -> Model {
    let mut m = Model::default();
    let mut ars = vec![];
    let mut as_needed = false;
    let mut lib_forced: HashMap<usize, bool> = HashMap::new();
    for i in &c.inputs {
        match i {
            Input::Obj(o) => m.explicit.push(*o),
            Input::Ar(a) => {
                if !ars.contains(a) {
                    ars.push(*a)
                }
            }
            Input::Lib(l) => {
                if !m.lib_order.contains(l) {
                    m.lib_order.push(*l)
                }
                *lib_forced.entry(*l).or_insert(false) |= !as_needed;
            }
            Input::AsNeeded(b) => as_needed = *b,
            Input::Raw(_) => {}
        }
    }
    m.loaded = m.explicit.clone();
    loop {
        let mut defined: BTreeSet<&str> = BTreeSet::new();
        let mut wanted: BTreeSet<&str> = BTreeSet::new();
        for o in &m.loaded {
            for s in &c.objs[*o].syms {
                if s.bind == LOCAL {
                    continue;
                }
                match s.place {
                    Place::Undef => {
                        if s.bind == GLOBAL {
                            wanted.insert(&s.name);
                        }
                    }
                    _ => {
                        defined.insert(&s.name);
                    }
                }
            }
        }
        let mut new = vec![];
        for w in wanted {
            if defined.contains(w) || special(w).is_some() {
                continue;
            }
            if m.lib_order.iter().any(|l| c.libs[*l].exports.iter().any(|e| e.name == w)) {
                continue;
            }
            'ar: for a in &ars {
                for (_, o) in &c.archives[*a].members {
                    if c.objs[*o].syms.iter().any(|s| s.name == w && s.bind != LOCAL && s.place != Place::Undef) {
                        if !m.loaded.contains(o) && !new.contains(o) {
                            new.push(*o);
                        }
                        break 'ar;
                    }
                }
            }
        }
        if new.is_empty() {
            break;
        }
        m.loaded.extend(new);
    }
    let mut strong: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    let mut weak: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    let mut common: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    let mut refs: BTreeMap<&str, bool> = BTreeMap::new();
    for o in &m.loaded {
        for (k, s) in c.objs[*o].syms.iter().enumerate() {
            if s.bind == LOCAL {
                continue;
            }
            if s.place == Place::Undef {
                *refs.entry(&s.name).or_insert(false) |= s.bind == GLOBAL;
            } else if s.place.common().is_some() {
                common.entry(&s.name).or_default().push((*o, k));
            } else if s.bind == GLOBAL {
                strong.entry(&s.name).or_default().push((*o, k));
            } else {
                weak.entry(&s.name).or_default().push((*o, k));
            }
        }
    }
    let mut used = vec![None; c.libs.len()];
    let all: BTreeSet<&str> = strong.keys().chain(weak.keys()).chain(common.keys()).chain(refs.keys()).copied().collect();
    for n in all {
        let strong_ref = refs.get(n).copied().unwrap_or(false);
        let res = if let Some(d) = strong.get(n) {
            if d.len() > 1 {
                m.dup.insert(n.to_string());
            }
            Res::Def { obj: d[0].0, sym: d[0].1 }
        } else if let Some(d) = common.get(n) {
            let syms = || d.iter().map(|(o, k)| &c.objs[*o].syms[*k]);
            let align = syms().map(|s| s.place.common().unwrap_or(0)).max().unwrap();
            Res::Common { obj: d[0].0, sym: d[0].1, size: syms().map(|s| s.size).max().unwrap(), align }
        } else if let Some(d) = weak.get(n) {
            Res::Def { obj: d[0].0, sym: d[0].1 }
        } else if let Some(sp) = special(n) {
            Res::Special(sp)
        } else {
            let mut r = None;
            for l in &m.lib_order {
                if let Some(e) = c.libs[*l].exports.iter().position(|e| e.name == n) {
                    r = Some((*l, e));
                    break;
                }
            }
            match r {
                Some((lib, exp)) => {
                    if strong_ref {
                        used[lib] = Some(true);
                    } else if used[lib].is_none() {
                        used[lib] = Some(false);
                    }
                    Res::Import { lib, exp }
                }
                None if strong_ref => {
                    m.undef.insert(n.to_string());
                    Res::Unresolved
                }
                None => Res::WeakZero,
            }
        };
        m.names.insert(n.to_string(), ResInfo { res, strong_ref });
    }
    // referred to by an explicit object, be it weakly, but then defined by an archive member pulled
    // in for another symbol: whether the library counts as used is open
    for (l, u) in used.iter_mut().enumerate() {
        let maybe = c.libs[l].exports.iter().any(|e| {
            refs.contains_key(&e.name[..])
                && matches!(m.names[&e.name].res, Res::Def { obj, .. } | Res::Common { obj, .. } if !m.explicit.contains(&obj))
        });
        if maybe && *u != Some(true) {
            *u = Some(false);
        }
    }
    m.needed = (0..c.libs.len())
        .map(|l| match (lib_forced.get(&l), used[l]) {
            (None, _) => Some(false),
            (Some(_), u) if c.open_libs.contains(&l) && u != Some(true) => None,
            (Some(true), _) | (_, Some(true)) => Some(true),
            (_, Some(false)) => None,
            _ => Some(false),
        })
        .collect();
    m
}

impl Model {
    /// What symbol `k` of object `o` stands for.
    pub fn res_of(&self, c: &Case, o: usize, k: usize) -> Res {
        let s = &c.objs[o].syms[k];
        if s.bind == LOCAL {
            Res::Def { obj: o, sym: k }
        } else {
            self.names[&s.name].res.clone()
        }
    }
}
