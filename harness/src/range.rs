//! Values at and beyond the limits of their fields, and relocations of other types.
use crate::case::*;
use crate::gen::{self, Profile};
use crate::model::*;
use crate::props::*;
use crate::tape::Tape;
use crate::verify;
use serde::{Deserialize, Serialize};

/// Field `r` of section `s` of object `o` is to get the value `delta` beyond a limit.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Probe {
    pub o: usize,
    pub s: usize,
    pub r: usize,
    pub high: bool,
    pub delta: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Range {
    pub case: Case,
    pub probes: Vec<Probe>,
    /// a field with a relocation of another type
    pub alien: Option<(usize, usize, usize, u32)>,
    /// an instruction that may do without its slot, and the distance of its target
    #[serde(default)]
    pub far: Option<Far>,
}

/// Field `r` of section `s` of object `o` reaches absolute symbol `k` of object `d`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Far {
    pub o: usize,
    pub s: usize,
    pub r: usize,
    pub d: usize,
    pub k: usize,
    pub away: i64,
}

fn far(t: &mut Tape, c: &mut Case, m: &Model) -> Option<Far> {
    let code: Vec<(usize, usize)> = m
        .loaded
        .iter()
        .flat_map(|o| (0..c.objs[*o].secs.len()).map(move |s| (*o, s)))
        .filter(|(o, s)| {
            let x = &c.objs[*o].secs[*s];
            x.flags & 4 != 0 && x.alloc() && x.ty == PROGBITS && x.size == x.data.len() as u64
        })
        .collect();
    if code.is_empty() {
        return None;
    }
    let (o, s) = *t.pick(&code);
    let d = *t.pick(&m.loaded);
    let n = "distant".to_string();
    c.objs[d].syms.push(Sym { name: n.clone(), bind: GLOBAL, ty: T_NOTYPE, vis: 0, place: Place::Abs(0x1000), size: 0 });
    let k = c.objs[d].syms.len() - 1;
    let by = if d == o {
        k
    } else {
        c.objs[o].syms.push(Sym { name: n, bind: GLOBAL, ty: T_NOTYPE, vis: 0, place: Place::Undef, size: 0 });
        c.objs[o].syms.len() - 1
    };
    let reg = t.below(16) as u8;
    let (kind, pre) = match t.below(4) {
        0 => (R_GOTPCRELX, vec![0xff, 0x15]),
        1 => (R_GOTPCRELX, vec![0xff, 0x25]),
        2 => (R_REX_GOTPCRELX, vec![0x48 | (reg >> 3) << 2, 0x8b, 0x05 | (reg & 7) << 3]),
        _ => (R_REX_GOTPCRELX, vec![0x48 | (reg >> 3) << 2, *t.pick(&[0x3b, 0x85, 0x03]), 0x05 | (reg & 7) << 3]),
    };
    let x = &mut c.objs[o].secs[s];
    x.data.extend(&pre);
    let off = x.data.len() as u64;
    x.data.extend([0; 4]);
    x.size = x.data.len() as u64;
    x.rels.push(Rel { off, kind, tgt: Tgt::Sym(by), addend: -4 });
    let r = x.rels.len() - 1;
    let side = if t.chance(50) { 1i64 << 31 } else { -(1i64 << 31) };
    let away = match t.below(6) {
        0 | 1 => side + t.below(9) as i64 - 4,
        2 => side + t.below(0x2000) as i64 - 0x1000,
        3 => t.raw64() as i64,
        4 => (1i64 << 32) * (1 + t.below(3) as i64) + t.below(0x1000_0000) as i64,
        _ => t.below(0x7000_0000) as i64,
    };
    Some(Far { o, s, r, d, k, away })
}

/// However far away its target is, an instruction that went through a slot reaches it, or the
/// link fails.
fn distant(x: &Range, f: &Far, env: &Env) -> Eval {
    let mut ev = Eval::default();
    let mut c = x.case.clone();
    let m = resolve(&c);
    if !m.dup.is_empty() || !m.undef.is_empty() {
        return ev;
    }
    let l = link(&c, env);
    let Some(out) = l.out.clone() else { return ev };
    let Some((_, p)) = verify::values(&c, &m, out, &[(f.o, f.s, f.r)])[0] else { return ev };
    let value = (p + 4).wrapping_add(f.away as u64);
    c.objs[f.d].syms[f.k].place = Place::Abs(value);
    let near = f.away.abs() < (1 << 31) - 64 && value < (1 << 31);
    ev.nontrivial = true;
    *ev.labels.entry(if near { "GOT references to a target within reach" } else { "GOT references to a target at or out of reach" }).or_insert(0) += 1;
    let m = resolve(&c);
    let l = link(&c, env);
    let said = format!("a GOT reference at {:#x} to {:#x}", p, value);
    if let Some(s) = l.outcome.signal {
        ev.fails.push(format!("[range] killed by signal {} for {}", s, said));
    } else if !l.outcome.ok() {
        if near {
            ev.fails.push(format!("[range] the link fails with {} for {}", l.outcome.brief(), said));
        } else {
            *ev.labels.entry("GOT references out of reach: rejected").or_insert(0) += 1;
        }
    } else {
        let (fails, _) = judge_outcome(&c, &m, &l);
        ev.fails.extend(fails.into_iter().filter(|f| ["ref", "got", "content"].contains(&f.aspect)).map(|f| format!("[range] {}: {}", said, f.msg)));
    }
    ev
}

pub fn gen(t: &mut Tape) -> Range {
    let p = Profile { objs: (1, 3), secs: (1, 5), names: (1, 6), slots: (1, 5), libs: 8, abs: 25, wide: 0, got: 12, weak_zero: 20, nonalloc: 12, commons: 8, archives: 10, ..Default::default() };
    let c = gen::gen(t, &p);
    let m = resolve(&c);
    let mut cand = vec![];
    let mut any = vec![];
    let mut slots = vec![];
    for o in &m.loaded {
        for (s, sec) in c.objs[*o].secs.iter().enumerate() {
            for (r, rel) in sec.rels.iter().enumerate() {
                if [R_32, R_32S, R_PC32, R_PLT32].contains(&rel.kind) {
                    let far = match rel.tgt {
                        Tgt::Sym(k) => matches!(m.res_of(&c, *o, k), Res::Import { .. }),
                        _ => false,
                    };
                    if !far {
                        cand.push((*o, s, r));
                    }
                }
                // these instructions keep their slots
                let import = matches!(rel.tgt, Tgt::Sym(k) if matches!(m.res_of(&c, *o, k), Res::Import { .. }));
                if rel.kind == R_GOTPCREL || import && [R_GOTPCRELX, R_REX_GOTPCRELX].contains(&rel.kind) {
                    slots.push((*o, s, r));
                }
                if sec.array().is_none() && ![R_NONE, R_GOTPCREL, R_GOTPCRELX, R_REX_GOTPCRELX].contains(&rel.kind) {
                    any.push((*o, s, r));
                }
            }
        }
    }
    let mut out = Range { case: c, probes: vec![], alien: None, far: None };
    if t.chance(15) {
        out.far = far(t, &mut out.case, &m);
        if out.far.is_some() {
            return out;
        }
    }
    if !slots.is_empty() && t.chance(25) {
        let (o, s, r) = *t.pick(&slots);
        out.probes.push(probe(t, o, s, r));
        return out;
    }
    if !any.is_empty() && t.chance(25) {
        let (o, s, r) = *t.pick(&any);
        let kind = match t.below(4) {
            0 | 1 => t.range(1, 45) as u32,
            2 => t.range(46, 260) as u32,
            _ => t.raw(),
        };
        if ![R_NONE, R_64, R_PC32, R_PLT32, R_GOTPCREL, R_32, R_32S, R_GOTPCRELX, R_REX_GOTPCRELX].contains(&kind) {
            out.alien = Some((o, s, r, kind));
            return out;
        }
    }
    for _ in 0..t.range(1, 3) {
        if cand.is_empty() {
            break;
        }
        let k = t.below(cand.len());
        let (o, s, r) = cand.remove(k);
        out.probes.push(probe(t, o, s, r));
    }
    out
}

fn probe(t: &mut Tape, o: usize, s: usize, r: usize) -> Probe {
    let high = t.chance(50);
    let mut delta = match t.below(8) {
        0 | 1 => 0,
        2 => 1 + t.below(3) as i64,
        3 => -1 - (t.below(3) as i64),
        4 => (t.raw() as i64) + 1,
        5 => 1 << t.range(31, 60),
        6 => (1i64 << 32) * t.range(1, 1000) as i64 + t.below(1000) as i64,
        _ => t.below(0x1000) as i64 - 0x800,
    };
    // mostly on the good side, so that links with several probes can succeed
    if t.chance(55) == (delta < 0) {
        delta = -delta;
    }
    if !high {
        delta = -delta;
    }
    Probe { o, s, r, high, delta }
}

/// The limits of a field.
fn limits(kind: u32) -> (i128, i128) {
    match kind {
        R_32 => (0, u32::MAX as i128),
        12 => (0, u16::MAX as i128),
        14 => (0, u8::MAX as i128),
        13 => (i16::MIN as i128, i16::MAX as i128),
        15 => (i8::MIN as i128, i8::MAX as i128),
        _ => (i32::MIN as i128, i32::MAX as i128),
    }
}

fn relative(kind: u32) -> bool {
    [R_PC32, R_PLT32, 13, 15, 24].contains(&kind)
}

pub fn eval(x: &Range, env: &Env) -> Eval {
    let mut ev = Eval::default();
    if let Some((o, s, r, kind)) = x.alien {
        return alien(x, o, s, r, kind, env);
    }
    if let Some(f) = &x.far {
        return distant(x, f, env);
    }
    if x.probes.is_empty() {
        return ev;
    }
    let first = &x.probes[0];
    let kind = x.case.objs[first.o].secs[first.s].rels[first.r].kind;
    if [R_GOTPCREL, R_GOTPCRELX, R_REX_GOTPCRELX].contains(&kind) {
        return slotted(x, first, env);
    }
    // the addresses, from a link without the fields in question
    let mut c = x.case.clone();
    for p in &x.probes {
        c.objs[p.o].secs[p.s].rels[p.r].kind = R_NONE;
    }
    let m = resolve(&c);
    if !m.dup.is_empty() || !m.undef.is_empty() {
        return ev;
    }
    let l = link(&c, env);
    let Some(out) = l.out.clone() else {
        if let Some(s) = l.outcome.signal {
            ev.fails.push(format!("[link] the linker was killed by signal {}", s));
        } else if !l.outcome.ok() {
            ev.fails.push(format!("[link] a valid link fails with {}", l.outcome.brief()));
        }
        return ev;
    };
    let wanted: Vec<(usize, usize, usize)> = x.probes.iter().map(|p| (p.o, p.s, p.r)).collect();
    let at = verify::values(&c, &m, out, &wanted);
    let mut fits = true;
    let mut said = vec![];
    let mut c = x.case.clone();
    for (p, at) in x.probes.iter().zip(&at) {
        let Some((sv, pv)) = at else { return ev };
        let rel = &mut c.objs[p.o].secs[p.s].rels[p.r];
        let (lo, hi) = limits(rel.kind);
        let v = if p.high { hi } else { lo } + p.delta as i128;
        let a = v - *sv as i64 as i128 + if relative(rel.kind) { *pv as i64 as i128 } else { 0 };
        let Ok(a) = i64::try_from(a) else { return ev };
        rel.addend = a;
        fits &= lo <= v && v <= hi;
        said.push(format!("{} with the value {:#x} ({} by {:#x})", verify::kind_name(rel.kind), v, if p.high { "upper limit" } else { "lower limit" }, p.delta));
        let n = if lo <= v && v <= hi {
            if p.delta.abs() < 4 {
                "values at the limit that fit"
            } else {
                "values that fit"
            }
        } else if p.delta.abs() < 4 {
            "values just beyond the limit"
        } else {
            "values beyond the limit"
        };
        *ev.labels.entry(n).or_insert(0) += 1;
    }
    ev.nontrivial = true;
    let m = resolve(&c);
    let l = link(&c, env);
    if let Some(s) = l.outcome.signal {
        ev.fails.push(format!("[range] killed by signal {} for {:?}", s, said));
    } else if !fits {
        if l.outcome.ok() {
            ev.fails.push(format!("[range] the link succeeds in spite of {:?}", said));
        }
    } else if !l.outcome.ok() {
        ev.fails.push(format!("[range] the link fails with {} for {:?}", l.outcome.brief(), said));
    } else {
        let (f, _) = judge_outcome(&c, &m, &l);
        ev.fails.extend(f.into_iter().filter(|f| f.aspect == "ref" || f.aspect == "nonalloc").map(|f| format!("[range] {:?}: {}", said, f.msg)));
    }
    ev
}

/// The distance of a slot, with an addend that takes it to a limit.
fn slotted(x: &Range, p: &Probe, env: &Env) -> Eval {
    let mut ev = Eval::default();
    let mut c = x.case.clone();
    let m = resolve(&c);
    if !m.dup.is_empty() || !m.undef.is_empty() {
        return ev;
    }
    let field = |c: &Case, out: Vec<u8>| {
        let off = c.objs[p.o].secs[p.s].rels[p.r].off;
        let b = verify::field(c, &m, out, p.o, p.s, off, 4)?;
        Some(i32::from_le_bytes(b.try_into().ok()?) as i64)
    };
    let Some(out) = link(&c, env).out else { return ev };
    let Some(was) = field(&c, out) else { return ev };
    let rel = &mut c.objs[p.o].secs[p.s].rels[p.r];
    let (lo, hi) = limits(rel.kind);
    let v = if p.high { hi } else { lo } + p.delta as i128;
    let Ok(a) = i64::try_from(v - was as i128 + rel.addend as i128) else { return ev };
    rel.addend = a;
    let fits = lo <= v && v <= hi;
    let said = format!("the distance {:#x} of a slot, with the addend", v);
    *ev.labels.entry(if fits { "distances of slots that fit" } else { "distances of slots beyond the limit" }).or_insert(0) += 1;
    ev.nontrivial = true;
    let l = link(&c, env);
    if let Some(s) = l.outcome.signal {
        ev.fails.push(format!("[range] killed by signal {} for {}", s, said));
    } else if !fits {
        if l.outcome.ok() {
            ev.fails.push(format!("[range] the link succeeds in spite of {}", said));
        }
    } else if !l.outcome.ok() {
        ev.fails.push(format!("[range] the link fails with {} for {}", l.outcome.brief(), said));
    } else if let Some(f) = l.out.and_then(|out| field(&c, out)) {
        if f as i128 != v {
            ev.fails.push(format!("[range] {} is written as {:#x}", said, f));
        }
    }
    ev
}

/// Thread-local variables are accepted, though the linker has no support for them.
const TPOFF: &str = "TPOFF32-accepted";

/// A relocation of a type the linker need not know: it has to be rejected or applied.
fn alien(x: &Range, o: usize, s: usize, r: usize, kind: u32, env: &Env) -> Eval {
    let mut ev = Eval::default();
    let mut c = x.case.clone();
    c.objs[o].secs[s].rels[r].kind = kind;
    let m = resolve(&c);
    if !m.dup.is_empty() || !m.undef.is_empty() {
        return ev;
    }
    ev.nontrivial = true;
    *ev.labels.entry("relocations of other types").or_insert(0) += 1;
    let l = link(&c, env);
    if let Some(g) = l.outcome.signal {
        ev.fails.push(format!("[alien] killed by signal {} for relocation type {}", g, kind));
        return ev;
    }
    if !l.outcome.ok() {
        return ev;
    }
    let Some(out) = l.out else { return ev };
    if kind == 23 {
        // no segment for thread-local variables is ever made, so no offset into it is right
        ev.signatures.push(TPOFF.into());
        ev.fails.push(format!("[alien] {}: the link succeeds with relocation type 23 (R_X86_64_TPOFF32)", TPOFF));
        return ev;
    }
    // accepted: then it is one of those with a meaning here, and was applied
    let meaning = [3, 12, 13, 14, 15, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33].contains(&kind);
    if !meaning {
        ev.fails.push(format!("[alien] the link succeeds with relocation type {}", kind));
        return ev;
    }
    let sec = &c.objs[o].secs[s];
    let off = sec.rels[r].off;
    let width: u64 = match kind {
        12 | 13 => 2,
        14 | 15 => 1,
        24 | 25 | 27..=31 | 33 => 8,
        _ => 4,
    };
    let Some(field) = verify::field(&c, &m, out.clone(), o, s, off, width) else { return ev };
    let was = sec.data.get(off as usize..(off + width) as usize).map(|b| b.to_vec());
    if width > 1 && Some(&field) == was.as_ref() {
        ev.fails.push(format!("[alien] the link succeeds with relocation type {}, whose field is left as it was", kind));
    }
    if kind == 3 {
        // the distance of the symbol's slot from the global offset table
        if let Some((sv, _)) = verify::values(&c, &m, out.clone(), &[(o, s, r)])[0] {
            let v = i32::from_le_bytes(field[..4].try_into().unwrap()) as i64;
            if let Err(e) = verify::got_slot(out.clone(), v.wrapping_sub(sec.rels[r].addend), sv) {
                ev.fails.push(format!("[alien] relocation type 3 is written as {:#x}, but {}", v, e));
            }
        }
    }
    if [12, 13, 14, 15, 24].contains(&kind) {
        if let Some((sv, pv)) = verify::values(&c, &m, out, &[(o, s, r)])[0] {
            let a = sec.rels[r].addend as i128;
            let v = sv as i64 as i128 + a - if relative(kind) { pv as i64 as i128 } else { 0 };
            let (lo, hi) = limits(kind);
            if kind != 24 && (v < lo || v > hi) {
                ev.fails.push(format!("[alien] the link succeeds with relocation type {} and the value {:#x}, which does not fit", kind, v));
            } else if field != (v as u64).to_le_bytes()[..width as usize] {
                ev.fails.push(format!("[alien] relocation type {} with the value {:#x} is written as {:02x?}", kind, v, field));
            }
        }
    }
    ev
}

pub fn smaller(x: &Range) -> Vec<Range> {
    let mut v = vec![];
    for i in 0..x.probes.len() {
        let mut y = x.clone();
        y.probes.remove(i);
        v.push(y);
    }
    for i in (0..x.case.inputs.len()).rev() {
        let mut y = x.clone();
        y.case.inputs.remove(i);
        if resolve(&y.case).names.contains_key("_start") {
            v.push(y);
        }
    }
    // (sections keep their relocations, which the probes refer to by number)
    for o in 0..x.case.objs.len() {
        for s in 0..x.case.objs[o].secs.len() {
            let used = x.probes.iter().any(|p| (p.o, p.s) == (o, s)) || x.alien.map_or(false, |a| (a.0, a.1) == (o, s)) || x.far.as_ref().map_or(false, |f| (f.o, f.s) == (o, s));
            if !used && !x.case.objs[o].secs[s].rels.is_empty() {
                let mut y = x.clone();
                y.case.objs[o].secs[s].rels.clear();
                v.push(y);
            }
        }
    }
    v
}
