//! Generated-input search: proptest draws tapes, a property turns them into jobs and judges them.
use crate::props::{self, Env, Eval, Job, Prop};
use crate::run::*;
use crate::verify::Labels;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Totals {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: Labels,
    samples: Vec<Value>,
    known: std::collections::BTreeSet<String>,
    timed_out: bool,
}

fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn seed32(seed: u64, prop: &str, thread: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let h = fnv(format!("{} {} {} {}", seed, prop, thread, i).as_bytes());
        out[8 * i as usize..8 * i as usize + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

/// Findings recorded as such in the committed file. Lines are
/// `fixed: property=<id> <commit> <what>` (which suppress nothing) or
/// `known: property=<id> <signature> <what>`.
pub fn known_findings() -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut w = rest.splitn(3, ' ');
            match (w.next(), w.next(), w.next()) {
                (Some(p), Some(s), Some(t)) => v.push(Known { property: p.into(), signature: s.into(), what: t.into() }),
                _ => crate::fatal(&format!("KNOWN_FINDINGS: {}", l)),
            }
        }
    }
    v
}

pub fn check(id: &str) {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = props::find(id).unwrap_or_else(|| crate::fatal(&format!("unknown property {}", id)));
    let root = Scratch::new("root");
    std::fs::set_permissions(&root.path, std::os::unix::fs::PermissionsExt::from_mode(0o755)).ok();
    let dld = build_dld(&root.path);
    let threads = std::env::var("DLD_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let scale: f64 = std::env::var("DLD_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cases = ((if tier == "thorough" { prop.thorough } else { prop.quick }) as f64 * scale) as u64;
    // for trying many changes of the linker in a row
    let hurry = std::env::var_os("DLD_NOSHRINK").is_some();
    // for an overview of all that fails: print and go on
    let survey = std::env::var_os("DLD_SURVEY").is_some();
    let budget = Duration::from_secs(if tier == "thorough" { 3600 } else { 400 });
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals { evaluations: 0, nontrivial: HashSet::new(), labels: Labels::new(), samples: vec![], known: Default::default(), timed_out: false });
    let failures: Mutex<Vec<(u64, Job, Vec<String>)>> = Mutex::new(vec![]);
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.property == id).collect();

    std::thread::scope(|sc| {
        for th in 0..threads {
            let (dld, prop, stop, totals, failures, known) = (&dld, &prop, &stop, &totals, &failures, &known);
            sc.spawn(move || {
                let scratch = Scratch::user(&format!("t{}", th));
                let env = Env { dld: dld.clone(), dir: scratch.path.clone() };
                let config = Config {
                    cases: (cases / threads + (th < cases % threads) as u64) as u32,
                    max_shrink_iters: if hurry { 0 } else { prop.shrink },
                    failure_persistence: None,
                    max_local_rejects: 1,
                    source_file: None,
                    ..Config::default()
                };
                if config.cases == 0 {
                    return;
                }
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(seed, id, th));
                let mut runner = TestRunner::new_with_rng(config, rng);
                let strategy = proptest::collection::vec(proptest::num::u32::ANY, 0..=prop.tape).no_shrink_if(hurry || prop.shrink == 0);
                let mut mine = false;
                let mine_cell = std::cell::Cell::new(false);
                // the linker's layout may differ from run to run, so a failure need not show
                // every time: the latest one seen is kept, and minimising tries more than once
                let last: std::cell::RefCell<Option<(Job, Vec<String>)>> = Default::default();
                let shrink_from = std::cell::Cell::new(None::<Instant>);
                let r = runner.run(&strategy, |tape| {
                    if (stop.load(Ordering::SeqCst) && !mine_cell.get()) || shrink_from.get().map_or(false, |t: Instant| t.elapsed() > Duration::from_secs(60)) {
                        return Ok(());
                    }
                    if !mine_cell.get() && t0.elapsed() > budget {
                        totals.lock().unwrap().timed_out = true;
                        return Ok(());
                    }
                    let job = (prop.generate)(&tape);
                    let mut ev = (prop.evaluate)(&job, &env);
                    let mut listed = drop_known(&mut ev, known);
                    for _ in 0..3 {
                        if mine_cell.get() && ev.fails.is_empty() {
                            ev = (prop.evaluate)(&job, &env);
                            listed = drop_known(&mut ev, known);
                        }
                    }
                    if survey {
                        for f in std::mem::take(&mut ev.fails) {
                            println!("{}", f);
                        }
                    }
                    if !mine_cell.get() {
                        record(totals, &job, &ev, listed);
                    }
                    if ev.fails.is_empty() {
                        Ok(())
                    } else {
                        if !mine_cell.get() {
                            if stop.swap(true, Ordering::SeqCst) {
                                // someone else is already shrinking a failure
                                return Ok(());
                            }
                            mine_cell.set(true);
                            shrink_from.set(Some(Instant::now()));
                        }
                        let m = ev.fails[0].clone();
                        *last.borrow_mut() = Some((job, ev.fails));
                        Err(TestCaseError::fail(m))
                    }
                });
                mine |= mine_cell.get();
                match r {
                    Ok(()) => {}
                    Err(TestError::Fail(..)) if mine => {
                        let (mut job, mut fails) = last.into_inner().unwrap();
                        let kind = |f: &str| f.split(']').next().unwrap_or("").to_string();
                        let kinds: Vec<String> = fails.iter().map(|f| kind(f)).collect();
                        if !hurry {
                            props::reduce(&mut job, &mut |j| {
                                let n = if matches!(j, props::Job::Prog(_)) { 1 } else { 4 };
                                (0..n).any(|_| {
                                    let mut ev = (prop.evaluate)(j, &env);
                                    drop_known(&mut ev, known);
                                    let same = ev.fails.iter().any(|f| kinds.contains(&kind(f)));
                                    if same {
                                        fails = ev.fails;
                                    }
                                    same
                                })
                            });
                        }
                        failures.lock().unwrap().push((th, job, fails));
                    }
                    Err(e) => crate::fatal(&format!("proptest: {}", e)),
                }
            });
        }
    });

    let t = totals.into_inner().unwrap();
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.0);
    let evidence = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": prop.rule,
            "samples": t.samples,
            "exercised": t.labels,
            "cases_asked_for": cases,
            "stopped_by_time_limit": t.timed_out,
        },
        "assumptions": prop.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": failures.len(),
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap_or_else(|e| crate::fatal(&format!("evidence: {}", e)));
    for k in &t.known {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s", id, t.evaluations, t.nontrivial.len(), t0.elapsed().as_secs_f64());
    if failures.is_empty() {
        if t.nontrivial.is_empty() {
            crate::fatal("no non-trivial case was evaluated");
        }
        return;
    }
    for (_, job, fails) in &failures {
        let body = serde_json::to_string_pretty(&json!({"property": id, "seed": seed, "fails": fails, "job": job})).unwrap();
        let dir = verif_dir().join("replays").join(id);
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{:016x}.json", fnv(body.as_bytes())));
        std::fs::write(&path, body).unwrap_or_else(|e| crate::fatal(&format!("replay: {}", e)));
        for f in fails.iter().take(8) {
            println!("  {}", f);
        }
        println!("VIOLATION property={} replay={}", id, path.display());
    }
    drop(root);
    std::process::exit(1);
}

trait NoShrinkIf: Strategy + Sized {
    fn no_shrink_if(self, no: bool) -> proptest::strategy::BoxedStrategy<Self::Value>
    where
        Self: 'static,
    {
        if no {
            self.no_shrink().boxed()
        } else {
            self.boxed()
        }
    }
}
impl<S: Strategy> NoShrinkIf for S {}

fn drop_known(ev: &mut Eval, known: &[Known]) -> Vec<String> {
    let mut listed = vec![];
    ev.fails.retain(|f| match known.iter().find(|k| ev.signatures.contains(&k.signature) && f.contains(&k.signature)) {
        Some(k) => {
            listed.push(k.what.clone());
            false
        }
        None => true,
    });
    listed
}

fn record(totals: &Mutex<Totals>, job: &Job, ev: &Eval, listed: Vec<String>) {
    let digest = if ev.nontrivial { Some(fnv(serde_json::to_string(job).unwrap().as_bytes())) } else { None };
    let mut t = totals.lock().unwrap();
    t.evaluations += 1;
    if let Some(d) = digest {
        t.nontrivial.insert(d);
        if t.samples.len() < 4 && (t.evaluations > 20 || t.samples.is_empty()) {
            let s = props::sample(job);
            if serde_json::to_string(&s).unwrap().len() < 6000 {
                t.samples.push(s);
            }
        }
    }
    for (k, v) in &ev.labels {
        *t.labels.entry(k).or_insert(0) += v;
    }
    t.known.extend(listed);
}

fn load_replay(path: &str) -> (Prop, Job, String) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| crate::fatal(&format!("{}: {}", path, e)));
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| crate::fatal(&format!("{}: {}", path, e)));
    let id = v["property"].as_str().unwrap_or("").to_string();
    let prop = props::find(&id).unwrap_or_else(|| crate::fatal("unknown property"));
    let job: Job = serde_json::from_value(v["job"].clone()).unwrap_or_else(|e| crate::fatal(&format!("{}: {}", path, e)));
    (prop, job, id)
}

pub fn replay(path: &str) {
    let (prop, job, id) = load_replay(path);
    let root = Scratch::new("root");
    std::fs::set_permissions(&root.path, std::os::unix::fs::PermissionsExt::from_mode(0o755)).ok();
    let dld = build_dld(&root.path);
    let scratch = Scratch::user("r");
    let env = Env { dld, dir: scratch.path.clone() };
    let mut ev = (prop.evaluate)(&job, &env);
    for _ in 0..30 {
        if ev.fails.is_empty() {
            ev = (prop.evaluate)(&job, &env);
        }
    }
    println!("{}", serde_json::to_string_pretty(&props::sample(&job)).unwrap());
    for f in &ev.fails {
        println!("  {}", f);
    }
    let bad = !ev.fails.is_empty();
    drop(scratch);
    drop(root);
    if bad {
        println!("VIOLATION property={} replay={}", id, path);
        std::process::exit(1);
    }
    println!("{}: holds on this case", id);
}

/// Writes the input files of a replay somewhere, with the command line.
pub fn dump(path: &str, dir: &str) {
    let (_, job, _) = load_replay(path);
    std::fs::create_dir_all(dir).ok();
    props::dump(&job, std::path::Path::new(dir));
}
