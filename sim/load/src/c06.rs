//! C06: generated code does not depend on process randomness.
use serde::{Deserialize, Serialize};
use simcore::modelgen::{gen_model, Feat};
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{isolated, Env, Outcome, Prop};
use simcore::sys;
use xsd_internal::xsd::schema::Schema;

use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    files: Vec<(String, String)>,
    /// Hash seeds; each is one simulated process.
    seeds: Vec<u64>,
    /// Earlier activity on the thread before the measured one: number of other loads.
    warm: Vec<u8>,
    op: Op,
    /// What earlier activity may load besides.
    #[serde(default)]
    other: Vec<(String, String)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    All,
    /// Elements (by rank of their name) generated with their dependencies, sharing the set of what was generated.
    Each(Vec<usize>),
}

pub struct C06;

const ATTRS: &[&str] = &["abstract", "nillable", "block", "final", "substitutionGroup", "bogus", "x", "id", "form2", "zzz"];

fn act(root: &std::path::Path, op: &Op) -> String {
    let s = match Schema::parse_file(root) {
        Ok(s) => s,
        Err(e) => return format!("load error: {}", error_chain(&e)),
    };
    match op {
        Op::All => match s.generate_all() {
            Ok(t) => t.to_string(),
            Err(e) => format!("generate error: {}", error_chain(&e)),
        },
        Op::Each(v) => {
            let mut names: Vec<_> = s.elements().map(|(n, _)| n).collect();
            names.sort_by_key(|n| (n.name.clone(), ns_uri(&s, n.namespace)));
            let mut done = std::collections::HashSet::new();
            let mut out = String::new();
            for i in v {
                if names.is_empty() {
                    break;
                }
                let n = names[i % names.len()];
                match s.generate_element_and_dependencies(n, &mut done) {
                    Ok(t) => out.push_str(&t.to_string()),
                    Err(e) => out.push_str(&format!("generate error: {}", error_chain(&e))),
                }
                out.push_str("\n----\n");
            }
            out
        }
    }
}

/// Leaves holes in the heap, so that later allocations are not in the order of their addresses.
fn fragment(seed: u64) -> Vec<Vec<u8>> {
    let mut rng = Rng::new(seed);
    let n = if rng.pct(20) { 0 } else { rng.range(20, 400) };
    let mut v: Vec<Vec<u8>> = (0..n).map(|_| vec![0; rng.range(8, 600)]).collect();
    rng.shuffle(&mut v);
    v.truncate(n / 2);
    v
}

impl Prop for C06 {
    type Sc = Sc;
    const ID: &'static str = "C06";
    const RUNS: (u64, u64) = (3_000, 250_000);
    const RULE: &'static str = "one run = one schema file set, loaded and generated in several simulated processes that differ only in hash seed and earlier activity; non-trivial: at least two distinct hash seeds and a schema with at least two declarations or an error; distinct: by schema text and operation";
    const REAL: &'static str = "xsd-internal loader and generator (unmodified), standard library hash maps";
    const STUB: &'static str = "getrandom is intercepted per simulated process (thread), which decides every hash seed";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let m = gen_model(rng, &Feat { files: 4, decls: 5, depth: 2, compilable: false });
        let mut files = simcore::model::xsd_files(&m);
        if rng.pct(30) {
            // several unsupported attributes or an unknown construct: the diagnostic must not depend on the seed
            let i = rng.below(files.len());
            let x = if files[i].1.contains("<xs:schema") { "xs:" } else { "" };
            let tags = ["element", "complexType", "simpleType", "sequence", "attribute", "choice", "all", "extension", "restriction", "enumeration"];
            for _ in 0..rng.range(1, 2) {
                let tag = format!("<{x}{} ", rng.pick(&tags));
                let n = files[i].1.matches(&tag).count();
                let tag = if n == 0 { format!("<{x}element ") } else { tag };
                let n = files[i].1.matches(&tag).count();
                if n == 0 {
                    continue;
                }
                let k = rng.below(n);
                let at = files[i].1.match_indices(&tag).nth(k).unwrap().0 + tag.len();
                let mut ins = String::new();
                let mut used: Vec<&str> = vec![];
                for _ in 0..rng.range(2, 5) {
                    let a = *rng.pick(ATTRS);
                    if !used.contains(&a) {
                        used.push(a);
                        ins.push_str(&format!("{a}=\"v\" "));
                    }
                }
                files[i].1.insert_str(at, &ins);
            }
        }
        if rng.pct(5) {
            // many declarations
            let i = rng.below(files.len());
            let x = if files[i].1.contains("<xs:schema") { "xs:" } else { "" };
            let n = rng.range(30, 160);
            let all: String = (0..n).map(|k| format!("  <{x}element name=\"Many{}\" type=\"{x}int\"/>\n", k * 7919 % n)).collect();
            let end = format!("</{x}schema>");
            let start = files[i].1.find(&format!("<{x}schema")).and_then(|p| Some(p + files[i].1[p..].find('>')? + 1));
            let at = if rng.pct(50) { start } else { files[i].1.find(&end) };
            if let Some(p) = at.filter(|_| files[i].1.contains(&end)) {
                files[i].1.insert_str(p, &all);
            }
        }
        if rng.pct(20) {
            // declarations named like what the names of nested types are made of
            let i = rng.below(files.len());
            let x = if files[i].1.contains("<xs:schema") { "xs:" } else { "" };
            let up = |n: &str| n.chars().next().map(|c| c.to_ascii_uppercase().to_string() + &n[c.len_utf8()..]).unwrap_or_default();
            let names: Vec<(bool, String)> = files[i]
                .1
                .lines()
                .filter_map(|l| Some((l.starts_with("  <"), up(l.split_once(" name=\"")?.1.split('"').next()?))))
                .collect();
            let mut extra: Vec<String> = Vec::new();
            let mut last = String::new();
            for (top, n) in names {
                if top {
                    last = n;
                } else if extra.len() < 12 && rng.pct(60) {
                    let e = format!("{last}{n}{}", rng.pick(&["", "", "Data", "Variant"]));
                    if !extra.contains(&e) {
                        extra.push(e);
                    }
                }
            }
            let all: String = extra.iter().map(|e| format!("  <{x}element name=\"{e}\" type=\"{x}int\"/>\n")).collect();
            let end = format!("</{x}schema>");
            if let Some(p) = files[i].1.find(&end) {
                files[i].1.insert_str(p, &all);
            }
        }
        if rng.pct(10) {
            // dangling references
            let i = rng.below(files.len());
            let q = ":string\"";
            if let Some(p) = files[i].1.find(q) {
                files[i].1.replace_range(p..p + q.len(), ":nosuch\"");
            }
        }
        let n = rng.range(3, 6);
        let op = if rng.pct(50) { Op::All } else { Op::Each((0..rng.range(1, 4)).map(|_| rng.below(40)).collect()) };
        let other = if rng.pct(50) { simcore::model::xsd_files(&gen_model(rng, &Feat { files: 2, decls: 4, depth: 2, compilable: false })) } else { vec![] };
        Sc { other, files, seeds: (0..n).map(|_| rng.next() >> 1).collect(), warm: (0..n).map(|_| if rng.pct(30) { rng.below(3) as u8 } else if rng.pct(1) { 255 } else { 0 }).collect(), op }
    }

    fn exec(sc: &Sc, env: &Env) -> Outcome {
        let mut o = Outcome::default();
        if sc.files.is_empty() || sc.seeds.is_empty() {
            return o;
        }
        let dir = fresh_dir(&env.scratch.join("c06"));
        for (p, t) in &sc.files {
            put(&dir, p, t.as_bytes());
        }
        let root = dir.join(safe(&sc.files[0].0));
        let other = sc.other.first().map(|f| dir.join("other").join(safe(&f.0)));
        for (p, t) in &sc.other {
            put(&dir.join("other"), p, t.as_bytes());
        }
        let mut first: Option<String> = None;
        for (i, s) in sc.seeds.iter().enumerate() {
            let warm = sc.warm.get(i).copied().unwrap_or(0);
            // a process of its own: statics are fresh, thread numbers and the heap differ
            let process = || sys::run_single(*s, || {
                for k in 0..if warm == 255 { 60 } else { warm } {
                    let _ = match &other {
                        Some(p) if (*s >> 9).wrapping_add(k as u64) % 3 > 0 => act(p, &Op::All),
                        _ => act(&root, &if k % 2 == 0 { Op::All } else { sc.op.clone() }),
                    };
                    let _: std::collections::HashMap<u8, u8> = (0..k).map(|x| (x, x)).collect();
                }
                let junk = fragment(*s);
                let r = act(&root, &sc.op);
                drop(junk);
                r
            });
            let r = isolated(|| {
                for (i, k) in ["LANG", "TZ", "HOME", "RUST_BACKTRACE", "NO_COLOR", "CARGO_MANIFEST_DIR", "OUT_DIR", "PROFILE", "USER", "DEBUG"].iter().enumerate() {
                    match (*s >> (24 + i)) % 3 {
                        0 => std::env::remove_var(k),
                        1 => std::env::set_var(k, "1"),
                        _ => {}
                    }
                }
                let _ = std::env::set_current_dir(if (*s >> 40) % 2 == 0 { &dir } else { std::path::Path::new("/") });
                for _ in 0..s % 4 {
                    let _ = std::thread::spawn(|| {}).join();
                }
                match process() {
                    Ok(s) => s,
                    Err(p) => format!("panic: {p}"),
                }
                .into_bytes()
            });
            let r = match r {
                Ok(b) => String::from_utf8_lossy(&b).into_owned(),
                Err((c, d)) => {
                    o.fail(&c, d);
                    return o;
                }
            };
            let r = r.replace(&*dir.to_string_lossy(), "D");
            o.steps += 1;
            o.fault("hash_seed");
            if warm > 0 {
                o.fault("earlier_activity");
            }
            match &first {
                None => {
                    if r.contains("error:") {
                        o.probe("error_outcome");
                    } else {
                        o.probe("code_outcome");
                    }
                    first = Some(r);
                }
                Some(f) => {
                    if *f != r {
                        let k = f.bytes().zip(r.bytes()).take_while(|(a, b)| a == b).count();
                        let cut = |s: &str| s.chars().skip(k.saturating_sub(40)).take(120).collect::<String>();
                        o.fail(
                            if f.contains("error:") || r.contains("error:") { "different_error" } else { "different_code" },
                            format!("seed {} and {} differ at {k}: {:?} / {:?}", sc.seeds[0], s, cut(f), cut(&r)),
                        );
                        break;
                    }
                }
            }
        }
        let f = first.unwrap_or_default();
        o.note(f.as_bytes());
        o.sig = hash_bytes(7, format!("{:?}{:?}", sc.files, sc.op).as_bytes());
        o.trivial = sc.seeds.len() < 2 || f.is_empty();
        let _ = std::fs::remove_dir_all(&dir);
        o
    }
}
