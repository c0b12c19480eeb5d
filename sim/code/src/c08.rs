//! C08: concurrent and earlier operations do not influence each other.
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

use glue::Val;
use serde::{Deserialize, Serialize};
use simcore::modelgen::{gen_model, Feat};
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{isolated, Env, Outcome, Prop};
use simcore::sys::{self, Switches};
use simcore::xmltree::write;
use xsd_internal::xsd::schema::Schema as Loaded;

use crate::c11::style;
use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    /// Values shared by all threads: (type, document they are decoded from).
    values: Vec<(Target, String)>,
    /// Schema file sets on disk, each in its own directory; the first file is the root.
    sets: Vec<Vec<(String, String)>>,
    ops: Vec<Op>,
    /// What each thread does, in order.
    threads: Vec<Vec<u8>>,
    switches: Switches,
    seeds: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Decode(Target, String),
    /// Serialises a shared value; at the given sink call the sink itself performs another operation.
    Encode { value: u8, cfg: Option<Cfg>, plan: Vec<(u32, SinkAct)>, inside: Option<(u32, u8)> },
    Load { set: u8, each: bool },
    /// Generates the code of a schema that is loaded from memory.
    Parse(String),
    /// Replaces a file of a set (only in histories of one thread).
    Rewrite { set: u8, file: u8, text: String },
}

/// A result: what a caller can see.
type Res = String;

struct NestSink<'a> {
    sink: Sink,
    call: u32,
    inside: Option<(u32, Box<dyn FnMut() + 'a>)>,
}
impl Write for NestSink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let c = self.call;
        self.call += 1;
        if let Some((n, f)) = &mut self.inside {
            if *n == c {
                f();
            }
        }
        self.sink.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.sink.flush()
    }
}

struct World<'a> {
    sc: &'a Sc,
    dir: PathBuf,
    vals: Vec<Option<(Box<dyn Val>, String)>>,
    /// Results of operations that sinks performed.
    nested: Mutex<Vec<(u8, Res)>>,
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => sys::outside(|| format!("panic: {}", sys::panic_text(p))),
    }
}

fn put_set(dir: &Path, k: usize, set: &[(String, String)]) {
    for (p, t) in set {
        put_file(dir, k, p, t);
    }
}
fn put_file(dir: &Path, k: usize, p: &str, t: &str) {
    let clean: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != "." && *c != "..").collect();
    let f = dir.join(format!("set{k}")).join(clean.join("/"));
    if let Some(d) = f.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(f, t);
}

impl World<'_> {
    fn new<'a>(sc: &'a Sc, dir: &Path, need: impl Fn(usize) -> bool, files: bool) -> World<'a> {
        if files {
            let _ = std::fs::remove_dir_all(dir);
            for (k, s) in sc.sets.iter().enumerate() {
                put_set(dir, k, s);
            }
        }
        let vals = sc
            .values
            .iter()
            .enumerate()
            .map(|(i, (t, d))| {
                if !need(i) {
                    return None;
                }
                let f = t.find()?;
                let v = catch_unwind(AssertUnwindSafe(|| (f.root.from)(d))).ok()?.ok()?;
                Some((v, t.root.clone()))
            })
            .collect();
        World { sc, dir: dir.to_path_buf(), vals, nested: Mutex::new(vec![]) }
    }
    fn act(&self, i: u8, depth: u8) -> Res {
        let Some(op) = self.sc.ops.get(i as usize) else { return String::new() };
        match op {
            Op::Decode(t, text) => {
                let Some(f) = t.find() else { return String::new() };
                guarded(|| match (f.root.from)(text) {
                    Ok(v) => sys::outside(|| format!("value {}", v.show())),
                    Err(e) => format!("error {e}"),
                })
            }
            Op::Encode { value, cfg, plan, inside } => {
                let Some(Some((v, root))) = self.vals.get(*value as usize) else { return String::new() };
                match cfg {
                    None => guarded(|| match v.xml() {
                        Ok(b) => sys::outside(|| format!("bytes {}", String::from_utf8_lossy(&b))),
                        Err(e) => format!("error {e}"),
                    }),
                    Some(cfg) => {
                        let f: Option<(u32, Box<dyn FnMut() + '_>)> = match inside {
                            Some((n, j)) if depth == 0 => Some((
                                *n,
                                Box::new(move || {
                                    let r = self.act(*j, depth + 1);
                                    sys::outside(|| self.nested.lock().unwrap().push((*j, r)));
                                }),
                            )),
                            _ => None,
                        };
                        let mut s = NestSink { sink: Sink::new(plan), call: 0, inside: f };
                        let r = guarded(|| match v.write_to(root, cfg.emitter(), &mut s) {
                            None => "not built in".into(),
                            Some(Ok(())) => "done".into(),
                            Some(Err(e)) => format!("error {e}"),
                        });
                        sys::outside(|| format!("{r}: {}", String::from_utf8_lossy(&s.sink.got)))
                    }
                }
            }
            Op::Load { set, each } => {
                let k = *set as usize;
                let Some(s) = self.sc.sets.get(k) else { return String::new() };
                let Some(first) = s.first() else { return String::new() };
                let path = self.dir.join(format!("set{k}")).join(&first.0);
                guarded(|| match Loaded::parse_file(&path) {
                    Err(e) => format!("error {e} {e:?}"),
                    Ok(s) => generate(&s, *each),
                })
            }
            Op::Parse(text) => guarded(|| match Loaded::parse(text, "memory.xsd") {
                Err(e) => format!("error {e}"),
                Ok(s) => generate(&s, false),
            }),
            Op::Rewrite { .. } if depth > 0 => String::new(),
            Op::Rewrite { set, file, text } => {
                let k = *set as usize;
                let Some(s) = self.sc.sets.get(k) else { return String::new() };
                if let Some(f) = s.get(*file as usize % s.len().max(1)) {
                    sys::outside(|| put_file(&self.dir, k, &f.0, text));
                }
                String::new()
            }
        }
    }
}

fn generate(s: &Loaded, each: bool) -> Res {
    if !each {
        return match s.generate_all() {
            Ok(t) => t.to_string(),
            Err(e) => format!("error {e}"),
        };
    }
    let mut names: Vec<_> = s.elements().map(|(n, _)| n).collect();
    names.sort_by_key(|n| format!("{n:?}"));
    let mut done = Default::default();
    let mut out = String::new();
    for n in names {
        match s.generate_element_and_dependencies(n, &mut done) {
            Ok(t) => out.push_str(&t.to_string()),
            Err(e) => out.push_str(&format!("error {e}")),
        }
        out.push('\n');
    }
    out
}

fn values_of(sc: &Sc, i: u8, out: &mut Vec<usize>, depth: u8) {
    if let Some(Op::Encode { value, inside, .. }) = sc.ops.get(i as usize) {
        out.push(*value as usize);
        if let (Some((_, j)), 0) = (inside, depth) {
            values_of(sc, *j, out, 1);
        }
    }
}
fn files_of(sc: &Sc, i: u8) -> bool {
    match sc.ops.get(i as usize) {
        Some(Op::Load { .. }) | Some(Op::Rewrite { .. }) => true,
        Some(Op::Encode { inside: Some((_, j)), .. }) => matches!(sc.ops.get(*j as usize), Some(Op::Load { .. })),
        _ => false,
    }
}

/// Results of a whole run: per thread and position, then those of operations performed by sinks.
#[derive(Serialize, Deserialize)]
struct Report {
    res: Vec<Vec<Res>>,
    nested: Vec<(u8, Res)>,
    steps: u64,
    switches: u64,
    waits: u64,
    trace: u64,
}

fn together(sc: &Sc, dir: &Path) -> Report {
    let files = sc.threads.iter().flatten().any(|i| files_of(sc, *i));
    let w = World::new(sc, dir, |_| true, files);
    let out: Vec<Mutex<Vec<Res>>> = sc.threads.iter().map(|_| Mutex::new(vec![])).collect();
    let r = {
        let w = &w;
        let out = &out;
        let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = sc
            .threads
            .iter()
            .enumerate()
            .map(|(t, ops)| -> Box<dyn FnOnce() + Send + '_> {
                Box::new(move || {
                    for i in ops {
                        let r = w.act(*i, 0);
                        sys::outside(|| out[t].lock().unwrap().push(r));
                    }
                })
            })
            .collect();
        sys::run_threads(bodies, &sc.switches, &sc.seeds)
    };
    Report {
        res: out.into_iter().map(|m| m.into_inner().unwrap()).collect(),
        nested: w.nested.into_inner().unwrap(),
        steps: r.steps,
        switches: r.switches,
        waits: r.futex_waits,
        trace: r.trace,
    }
}

/// One operation alone, after the rewrites that precede it.
fn alone(sc: &Sc, dir: &Path, i: u8, before: &[u8]) -> Res {
    let mut need = vec![];
    values_of(sc, i, &mut need, 0);
    let w = World::new(sc, dir, |v| need.contains(&v), files_of(sc, i));
    for b in before {
        if matches!(sc.ops.get(*b as usize), Some(Op::Rewrite { .. })) {
            w.act(*b, 0);
        }
    }
    let w = &w;
    let mut res = String::new();
    {
        let slot = Mutex::new(&mut res);
        let slot = &slot;
        let body: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let r = w.act(i, 0);
            sys::outside(|| **slot.lock().unwrap() = r);
        });
        sys::run_threads(vec![body], &vec![], &[77]);
    }
    res
}

pub struct C08;

fn doc_op(rng: &mut Rng, t: &Target) -> String {
    let f = t.find().expect("target");
    let b = if rng.pct(1) { rng.range(1000, 6000) } else { rng.range(3, 30) } as i64;
    let d = f.gen(rng, b);
    let mut s = write(&d, &style(rng));
    if rng.pct(30) {
        // broken somewhere: fails half way
        let mut b = s.into_bytes();
        let n = b.len();
        match rng.below(3) {
            0 => b.truncate(rng.below(n)),
            1 => {
                let k = rng.below(n);
                b[k] = b'<';
            }
            _ => {
                let k = rng.below(n);
                b.drain(k..(k + rng.range(1, 12)).min(n));
            }
        }
        s = String::from_utf8_lossy(&b).into_owned();
    }
    s
}

impl Prop for C08 {
    type Sc = Sc;
    const ID: &'static str = "C08";
    const RUNS: (u64, u64) = (26_000, 1_500_000);
    const RULE: &'static str = "one run = up to eight (rarely 150) operations (decode, encode into faulty or panicking sinks, encode with an operation inside the sink, load and generate from files or memory) on one to four (rarely eight) simulated threads under one switch plan, compared with each operation alone in a fresh process; non-trivial: two operations at least, and several threads with a switch taken or one thread with a history; distinct: by operations and schedule trace";
    const REAL: &'static str = "generated code, xsd runtime, xsd-internal loader and generator, xml-rs, roxmltree (all unmodified); operating system threads parked and released one at a time";
    const STUB: &'static str = "the thread scheduler (switches at allocations, file calls, sink calls and futex waits), sinks, hash seeds";

    fn gen(rng: &mut Rng, env: &Env) -> Sc {
        let history = rng.pct(40);
        // many operations in one process: whatever is counted, kept or given up on after a while
        let long = rng.pct(3);
        // few types: operations that share a type share whatever state it might have
        let nt = rng.range(1, 2);
        let targets: Vec<Target> = (0..nt).map(|_| Target::pick(rng)).collect();
        let mut values = vec![];
        for _ in 0..rng.range(1, 3) {
            let t = rng.pick(&targets).clone();
            let f = t.find().expect("target");
            let b = rng.range(3, 30) as i64;
            let d = f.gen(rng, b);
            values.push((t, write(&d, &simcore::xmltree::plain())));
        }
        let load = rng.pct(55);
        let mut sets = vec![];
        if load {
            // small schemas are loaded in few steps, which the switches then hit more densely
            let small = rng.pct(50);
            let feat = if small { Feat { files: 2, decls: 1, depth: 1, compilable: false } } else { Feat { files: 3, decls: 3, depth: 2, compilable: false } };
            for _ in 0..rng.range(1, if small { 3 } else { 2 }) {
                let m = gen_model(rng, &feat);
                let mut fs = simcore::model::xsd_files(&m);
                if rng.pct(25) {
                    let i = rng.below(fs.len());
                    let n = fs[i].1.len();
                    let mut k = rng.below(n);
                    while !fs[i].1.is_char_boundary(k) {
                        k -= 1;
                    }
                    fs[i].1.truncate(k);
                } else if fs.len() > 1 && rng.pct(10) {
                    let i = rng.range(1, fs.len() - 1);
                    fs.remove(i);
                }
                sets.push(fs);
            }
        }
        let mut ops = vec![];
        for _ in 0..rng.range(2, 7) {
            ops.push(match rng.below(if load { 10 } else { 6 }) {
                0..=2 => {
                    let t = rng.pick(&targets).clone();
                    let d = doc_op(rng, &t);
                    Op::Decode(t, d)
                }
                3..=5 => {
                    let cfg = if rng.pct(70) { Some(Cfg::pick(rng)) } else { None };
                    let mut plan = vec![];
                    if rng.pct(50) {
                        plan.push((rng.below(40) as u32, if rng.pct(45) { SinkAct::Panic } else { SinkAct::fatal(rng) }));
                    }
                    let inside = if rng.pct(35) { Some((rng.below(20) as u32, rng.below(7) as u8)) } else { None };
                    Op::Encode { value: rng.below(values.len()) as u8, cfg, plan, inside }
                }
                6..=8 => Op::Load { set: rng.below(sets.len()) as u8, each: rng.pct(25) },
                _ => {
                    if history && !long && rng.pct(60) {
                        let k = rng.below(sets.len());
                        let m = gen_model(rng, &Feat { files: 1, decls: 3, depth: 1, compilable: false });
                        Op::Rewrite { set: k as u8, file: rng.below(sets[k].len()) as u8, text: simcore::model::xsd_text(&m, 0) }
                    } else {
                        let m = gen_model(rng, &Feat { files: 1, decls: 3, depth: 2, compilable: false });
                        Op::Parse(simcore::model::xsd_text(&m, 0))
                    }
                }
            });
        }
        let crowd = !history && rng.pct(10);
        let nthreads = if history { 1 } else if crowd { rng.range(5, 8) } else { rng.range(2, 4) };
        let mut threads = vec![vec![]; nthreads];
        let n = if long { rng.range(20, if history { 150 } else { 60 }) } else { rng.range(2, if env.thorough { 10 } else { 7 }) };
        let n = n.max(if crowd { nthreads } else { 0 });
        for i in 0..n {
            let t = if i < nthreads { i } else { rng.below(nthreads) };
            threads[t].push(rng.below(ops.len()) as u8);
        }
        let scale = *rng.pick(if load { &[1000u64, 5000, 20000, 100_000] } else { &[100, 300, 3000, 20000] });
        let cnt = if history { 0 } else { rng.range(1, 40) } + if crowd { 2 * nthreads } else { 0 };
        let mut switches = sys::random_switches(rng, scale, cnt);
        if !history && rng.pct(20) {
            // a stretch in which the threads take turns every few steps
            let (mut at, every) = (rng.next() % scale, rng.range(1, 20) as u64);
            for _ in 0..rng.range(10, 100) {
                at += 1 + rng.next() % every;
                switches.push((at, rng.below(8) as u8));
            }
            switches.sort();
        }
        Sc { values, sets, ops, threads, switches, seeds: (0..nthreads).map(|_| rng.next() >> 8).collect() }
    }

    fn exec(sc: &Sc, env: &Env) -> Outcome {
        let mut o = Outcome::default();
        o.trivial = true;
        let total: usize = sc.threads.iter().map(|t| t.len()).sum();
        if sc.threads.is_empty() || sc.threads.len() > 8 || total == 0 || sc.values.iter().any(|v| v.0.find().is_none()) {
            return o;
        }
        let one = sc.threads.len() == 1;
        // a file that changes while another thread loads it has no single answer
        if !one && sc.threads.iter().flatten().any(|i| matches!(sc.ops.get(*i as usize), Some(Op::Rewrite { .. }))) {
            return o;
        }
        if sc.threads.iter().flatten().any(|i| *i as usize >= sc.ops.len()) {
            return o;
        }
        // a relative path: messages are the same wherever the run takes place
        let dir = PathBuf::from("c08");
        let _ = std::fs::create_dir_all(&env.scratch);
        let home = || std::env::set_current_dir(&env.scratch).expect("scratch directory");
        let rep = match isolated(|| {
            home();
            serde_json::to_vec(&together(sc, &dir)).unwrap()
        }) {
            Ok(b) => match serde_json::from_slice::<Report>(&b) {
                Ok(r) => r,
                Err(e) => {
                    o.fail("crash", format!("no report: {e}"));
                    return o;
                }
            },
            Err((c, d)) => {
                o.fail(&c, format!("together: {d}"));
                return o;
            }
        };
        o.steps = rep.steps;
        o.note(&rep.steps.to_le_bytes());
        o.note(&rep.trace.to_le_bytes());
        o.sched = if rep.switches > 0 { rep.trace } else { 0 };
        for _ in 0..rep.switches {
            o.fault("thread_switch");
        }
        if rep.waits > 0 {
            o.probe("waited_for_another_thread");
        }
        let mut memo: Vec<(u8, Vec<u8>, Res)> = vec![];
        let mut compare = |i: u8, before: &[u8], got: &Res, whre: &str, o: &mut Outcome| {
            let before: Vec<u8> = if files_of(sc, i) { before.iter().filter(|b| matches!(sc.ops[**b as usize], Op::Rewrite { .. })).copied().collect() } else { vec![] };
            let known = memo.iter().find(|m| m.0 == i && m.1 == before).map(|m| m.2.clone());
            let want = match known {
                Some(w) => w,
                None => match isolated(|| {
                    home();
                    alone(sc, &dir, i, &before).into_bytes()
                }) {
                    Ok(b) => {
                        let s = String::from_utf8_lossy(&b).into_owned();
                        memo.push((i, before.clone(), s.clone()));
                        s
                    }
                    Err((c, d)) => {
                        o.fail(&c, format!("alone: {d}"));
                        return;
                    }
                },
            };
            o.note(want.as_bytes());
            o.probe(match &sc.ops[i as usize] {
                Op::Decode(..) => {
                    if want.starts_with("value") {
                        "decoded"
                    } else {
                        "decode_failed"
                    }
                }
                Op::Encode { .. } => {
                    if want.starts_with("panic") {
                        "sink_panicked"
                    } else if want.starts_with("error") {
                        "encode_failed"
                    } else {
                        "encoded"
                    }
                }
                Op::Load { .. } | Op::Parse(_) => {
                    if want.starts_with("error") {
                        "load_failed"
                    } else {
                        "loaded_and_generated"
                    }
                }
                Op::Rewrite { .. } => "files_rewritten",
            });
            if *got != want {
                let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| {
                    let mut k = at.saturating_sub(30);
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    short(&s[k..])
                };
                o.fail("differs", format!("{whre}: operation {i} gives {:?} and alone {:?}", cut(got), cut(&want)));
            }
        };
        for (t, ops) in sc.threads.iter().enumerate() {
            for (k, i) in ops.iter().enumerate() {
                let before: Vec<u8> = if one { ops[..k].to_vec() } else { vec![] };
                let Some(got) = rep.res[t].get(k) else {
                    o.fail("unfinished", format!("thread {t} did not finish operation {k}"));
                    return o;
                };
                compare(*i, &before, got, &format!("thread {t} position {k}"), &mut o);
                if o.violation.is_some() {
                    return o;
                }
            }
        }
        for (j, got) in &rep.nested {
            // rewrites may have happened before; only what does not depend on files is compared
            if *j as usize >= sc.ops.len() || (one && files_of(sc, *j)) || matches!(sc.ops[*j as usize], Op::Rewrite { .. }) {
                continue;
            }
            // inside a sink, an operation's own nested operation is left out
            if matches!(sc.ops[*j as usize], Op::Encode { inside: Some(_), .. }) {
                continue;
            }
            o.probe("performed_inside_a_sink");
            compare(*j, &[], got, "inside a sink", &mut o);
            if o.violation.is_some() {
                return o;
            }
        }
        o.trivial = total < 2 || (!one && rep.switches == 0);
        o.sig = hash_bytes(hash_bytes(8, serde_json::to_string(&sc.ops).unwrap().as_bytes()) ^ rep.trace, serde_json::to_string(&sc.threads).unwrap().as_bytes());
        o
    }
}
