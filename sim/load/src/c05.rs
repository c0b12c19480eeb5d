//! C05: loading follows every include/import graph to completion.
use std::collections::BTreeSet;
use std::path::PathBuf;

use serde::{Deserialize, Serialize};
use simcore::model::relative;
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::sys::{self, FsState};
use xsd_internal::xsd::schema::Schema;

use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    files: Vec<File>,
    root_spell: u8,
    /// The root is given as text and path (`Schema::parse`) instead of as a file.
    #[serde(default)]
    as_text: bool,
    /// Working directory: 0 scratch, 1 base directory, 2 a subdirectory.
    cwd: u8,
    /// Change the working directory at these opens (only with an absolute root path).
    chdir: Vec<u32>,
    hash_seed: u64,
    /// Files that no reference means, at places a wrong resolution would look: (directory, file whose name it has).
    #[serde(default)]
    decoys: Vec<(u8, u16)>,
    /// This file is not there (but its decoys are): loading has to fail if it is reachable.
    #[serde(default)]
    missing: Option<u16>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct File {
    path: String,
    ns: u16,
    qualified: bool,
    default_xsd: bool,
    elements: u8,
    types: u8,
    refs: Vec<Ref>,
    pad: u32,
    /// Also declares what other files declare under the same names, in other namespaces.
    #[serde(default)]
    same: bool,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Ref {
    to: usize,
    /// How the location is written.
    spell: u8,
    /// Number of declarations before it.
    after: u8,
    /// Use a type of that file in a declaration.
    uses: bool,
    /// Declare an element named like a type of that file (same namespace), with that type.
    #[serde(default)]
    twin: bool,
    /// Imported, although it has the same target namespace.
    #[serde(default)]
    import: bool,
}

pub struct C05;

/// A declaration name that is the same as a Rust type name (letters only, no word boundaries).
fn mark(kind: &str, file: impl TryInto<u32>, k: impl TryInto<u32>) -> String {
    let two = |n: u32| [(b'a' + (n / 26 % 26) as u8) as char, (b'a' + (n % 26) as u8) as char].iter().collect::<String>();
    format!("{kind}{}{}", two(file.try_into().unwrap_or(0)), two(k.try_into().unwrap_or(0)))
}

/// The namespace with the given number, 0 for none.
fn uri(n: u16) -> String {
    NS.get(n as usize).map_or_else(|| format!("urn:many:{n}"), |s| s.to_string())
}
const NS: &[&str] = &["", "urn:a", "http://example.com/b", "urn:c", "urn:A", "http://example.com/b/", "urn:a:b", "urn:a#", "http://example.com/b#"];
const DIRS: &[&str] = &["", "sub", "sub/deep", "lib", "sub/lib", "Sub", "my dir", "v1.2", ".hid", "été"];
const XSD: &str = "http://www.w3.org/2001/XMLSchema";

fn dir_of(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.0).unwrap_or("")
}

fn spell(from: &str, to: &str, how: u8, base: &str) -> String {
    let rel = relative(from, to);
    let tf = to.rsplit('/').next().unwrap_or(to);
    let td = dir_of(to);
    match how % 9 {
        0 | 1 | 2 => rel,
        3 => format!("./{rel}"),
        4 => {
            let d = dir_of(from).rsplit('/').next().unwrap_or("");
            if d.is_empty() {
                format!(".//{rel}")
            } else {
                format!("../{d}/{rel}")
            }
        }
        // alias directory link: "ln_X" in the base directory points to directory X
        5 => {
            let up = "../".repeat(from.matches('/').count());
            format!("{up}ln_{}/{tf}", td.replace('/', "_"))
        }
        // link to the file itself
        6 => {
            let up = "../".repeat(from.matches('/').count());
            format!("{up}fl_{}", to.replace('/', "_"))
        }
        7 => format!("{base}/{to}"),
        // a directory link back to its own directory: every use makes the path longer
        _ => {
            let up = "../".repeat(from.matches('/').count());
            format!("{up}self/{to}")
        }
    }
}

impl Sc {
    fn reach(&self) -> Vec<usize> {
        let mut v = vec![0usize];
        let mut i = 0;
        while i < v.len() {
            for r in &self.files[v[i]].refs {
                let t = r.to % self.files.len();
                if !v.contains(&t) {
                    v.push(t);
                }
            }
            i += 1;
        }
        v
    }
    /// Files whose first type the first type of file `i` uses, directly or not.
    fn uses(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut k = 0;
        while k < v.len() {
            let f = &self.files[v[k]];
            for r in &f.refs {
                let t = r.to % self.files.len();
                let tf = &self.files[t];
                if r.uses && tf.types > 0 && t != v[k] && !(tf.ns as usize == 0 && f.default_xsd) && !v.contains(&t) {
                    v.push(t);
                }
            }
            k += 1;
        }
        v
    }
    /// Whether file `i` declares the names that several files declare: once per namespace.
    fn same(&self, i: usize) -> bool {
        let ns = |f: &File| f.ns as usize;
        self.files[i].same && !self.files[..i].iter().any(|f| f.same && ns(f) == ns(&self.files[i]))
    }
    fn text(&self, i: usize, base: &str) -> String {
        let f = &self.files[i];
        let x = if f.default_xsd { "" } else { "xs:" };
        let ns = uri(f.ns);
        let mut s = String::from("<?xml version=\"1.0\"?>\n");
        s.push_str(&format!("<{x}schema"));
        s.push_str(&if f.default_xsd { format!(" xmlns=\"{XSD}\"") } else { format!(" xmlns:xs=\"{XSD}\"") });
        for (k, u) in NS.iter().enumerate().skip(1) {
            s.push_str(&format!(" xmlns:n{k}=\"{u}\""));
        }
        let mut more: Vec<u16> = f.refs.iter().map(|r| self.files[r.to % self.files.len()].ns).chain([f.ns]).filter(|n| *n as usize >= NS.len()).collect();
        more.sort();
        more.dedup();
        for k in more {
            s.push_str(&format!(" xmlns:n{k}=\"{}\"", uri(k)));
        }
        if !ns.is_empty() {
            s.push_str(&format!(" targetNamespace=\"{ns}\""));
        }
        if f.qualified {
            s.push_str(" elementFormDefault=\"qualified\"");
        }
        s.push_str(">\n");
        let mut decls: Vec<String> = Vec::new();
        for k in 0..f.elements {
            decls.push(format!("<{x}element name=\"{}\" type=\"{x}string\"/>", mark("El", i, k)));
        }
        for k in 0..f.types {
            let mut inner = format!("<{x}element name=\"own\" type=\"{x}int\"/>");
            for (n, r) in f.refs.iter().enumerate() {
                let t = r.to % self.files.len();
                let tf = &self.files[t];
                if r.uses && tf.types > 0 && t != i {
                    let q = tf.ns as usize;
                    if q == 0 && f.default_xsd {
                        continue;
                    }
                    let p = if q == 0 { String::new() } else { format!("n{q}:") };
                    inner.push_str(&format!("<{x}element name=\"use{n}\" type=\"{p}{}\" minOccurs=\"0\" maxOccurs=\"unbounded\"/>", mark("Ty", t, 0)));
                }
            }
            decls.push(format!("<{x}complexType name=\"{}\"><{x}sequence>{inner}</{x}sequence></{x}complexType>", mark("Ty", i, k)));
        }
        if self.same(i) {
            decls.push(format!("<{x}element name=\"SameElement\" type=\"{x}string\"/>"));
            decls.push(format!("<{x}complexType name=\"SameType\"><{x}sequence><{x}element name=\"own\" type=\"{x}int\"/></{x}sequence></{x}complexType>"));
        }
        for r in &f.refs {
            let t = r.to % self.files.len();
            let tf = &self.files[t];
            if r.twin && tf.types > 0 && tf.ns as usize == f.ns as usize && !(ns.is_empty() && f.default_xsd) {
                let q = tf.ns as usize;
                let p = if q == 0 { String::new() } else { format!("n{q}:") };
                let n = mark("Ty", t, 0);
                decls.push(format!("<{x}element name=\"{n}\" type=\"{p}{n}\"/>"));
            }
        }
        let mut refs: Vec<(usize, String)> = Vec::new();
        for r in &f.refs {
            let t = r.to % self.files.len();
            let tf = &self.files[t];
            let loc = spell(&safe(&f.path), &safe(&tf.path), r.spell, base);
            let tns = uri(tf.ns);
            let el = if tns == ns && !r.import {
                format!("<{x}include schemaLocation=\"{loc}\"/>")
            } else if tns.is_empty() {
                format!("<{x}import schemaLocation=\"{loc}\"/>")
            } else {
                format!("<{x}import namespace=\"{tns}\" schemaLocation=\"{loc}\"/>")
            };
            refs.push((r.after as usize, el));
        }
        for k in 0..=decls.len() {
            for (a, el) in &refs {
                if (*a).min(decls.len()) == k {
                    s.push_str(el);
                    s.push('\n');
                }
            }
            if k < decls.len() {
                s.push_str(&decls[k]);
                s.push('\n');
            }
        }
        for j in 0..f.pad.min(20_000) {
            if j == 0 {
                s.push_str("<!--");
            }
            s.push('p');
        }
        if f.pad > 0 {
            s.push_str("-->");
        }
        s.push_str(&format!("</{x}schema>\n"));
        s
    }
}

impl Prop for C05 {
    type Sc = Sc;
    const ID: &'static str = "C05";
    const RUNS: (u64, u64) = (6_000, 500_000);
    const RULE: &'static str = "one run = one graph of schema files loaded under one working directory schedule; non-trivial: more than one file or a self reference; distinct: by the reference graph with the spelling of each reference, namespaces and working-directory changes";
    const REAL: &'static str = "xsd-internal loader (unmodified), roxmltree, standard library, kernel path resolution on real files and symbolic links in a scratch directory";
    const STUB: &'static str = "libc entry points intercepted to record opens, change the working directory at chosen opens and seed the hash keys";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let shape = rng.below(8);
        let n = match shape {
            0 => rng.range(1, 2),
            1 => rng.range(10, 40), // ladder or chain
            2 if rng.pct(15) => rng.range(60, 160),
            2 => rng.range(12, 30),
            3 if rng.pct(10) => rng.range(80, 300), // star
            _ => rng.range(2, 8),
        };
        let odd = rng.pct(40);
        let dirs: Vec<String> = DIRS.iter().take(if odd { DIRS.len() } else { 5 }).map(|d| if d.is_empty() { String::new() } else { format!("{d}/") }).collect();
        let ns_max = if rng.pct(5) || n > 60 && rng.pct(50) { 400 } else { *rng.pick(&[4, NS.len()]) };
        let one_ns = rng.pct(35);
        let same = rng.pct(20);
        let spells = rng.below(4); // swarm: which spellings this run uses
        let mut files: Vec<File> = (0..n)
            .map(|i| File {
                path: if i == 0 { format!("{}root.xsd", *rng.pick(&["", "", "sub/"])) } else { format!("{}{}", rng.pick(&dirs), if odd { name(rng, i) } else { format!("f{i}.xsd") }) },
                ns: if one_ns { 1 } else { rng.below(ns_max) as u16 },
                qualified: rng.pct(50),
                default_xsd: rng.pct(25),
                elements: rng.below(3) as u8,
                types: rng.below(3) as u8,
                refs: vec![],
                pad: if rng.pct(5) { 9000 } else { 0 },
                same: same && rng.pct(70),
            })
            .collect();
        // same file name in several directories
        if n > 3 && rng.pct(20) {
            files[1].path = "sub/common.xsd".into();
            files[2].path = "lib/common.xsd".into();
            files[3].path = rng.pick(&["common.xsd", "sub/lib/common.xsd"]).to_string();
        }
        // names that differ in case only
        if n > 3 && rng.pct(10) {
            files[1].path = "types.xsd".into();
            files[2].path = "Types.xsd".into();
            files[3].path = rng.pick(&["types.XSD", "Sub/types.xsd", "types"]).to_string();
        }
        // the same content in two directories, which means different files
        let same = n > 6 && shape > 2 && rng.pct(25);
        if same {
            for (i, p) in ["sub/all.xsd", "lib/all.xsd", "sub/part.xsd", "lib/part.xsd"].iter().enumerate() {
                files[i + 1].path = p.to_string();
                files[i + 1].ns = files[1].ns;
                files[i + 1].qualified = files[1].qualified;
                files[i + 1].default_xsd = files[1].default_xsd;
                files[i + 1].pad = 0;
            }
            for i in 1..=2 {
                files[i].elements = 0;
                files[i].types = 0;
            }
            files[4].ns = files[3].ns;
        }
        let sp = |rng: &mut Rng| -> u8 {
            match spells {
                0 => 0,
                1 => rng.below(5) as u8,
                _ => rng.below(9) as u8,
            }
        };
        let mk = |rng: &mut Rng, to: usize| Ref { to, spell: sp(rng), after: rng.below(6) as u8, uses: rng.pct(40), twin: rng.pct(8), import: rng.pct(6) };
        match shape {
            1 => {
                // chain of diamonds: i -> i+1, i+2
                for i in 0..n {
                    for d in 1..=2 {
                        if i + d < n {
                            let r = mk(rng, i + d);
                            files[i].refs.push(r);
                        }
                    }
                }
            }
            2 => {
                for i in 0..n - 1 {
                    let r = mk(rng, i + 1);
                    files[i].refs.push(r);
                }
                if rng.pct(50) {
                    let r = mk(rng, rng.clone().below(n));
                    files[n - 1].refs.push(r);
                }
            }
            3 if n > 8 => {
                for i in 1..n {
                    let r = mk(rng, i);
                    files[0].refs.push(r);
                }
            }
            _ => {
                let m = rng.range(n.saturating_sub(1), 2 * n + 1);
                for _ in 0..m {
                    let a = rng.below(n);
                    let b = rng.below(n);
                    let r = mk(rng, b);
                    files[a].refs.push(r);
                    if rng.pct(10) {
                        let r = mk(rng, b);
                        files[a].refs.push(r);
                    }
                }
                // mostly connected
                for i in 1..n {
                    if rng.pct(70) {
                        let a = rng.below(i);
                        let r = mk(rng, i);
                        files[a].refs.push(r);
                    }
                }
            }
        }
        if same {
            for i in 1..=2 {
                files[i].refs = vec![Ref { to: i + 2, spell: 0, after: 0, uses: false, twin: false, import: false }];
                let r = mk(rng, i);
                files[0].refs.push(r);
            }
        }
        // a link to a file below a directory leaves open what its relative references mean
        for i in 0..n {
            for k in 0..files[i].refs.len() {
                let t = files[i].refs[k].to % n;
                if files[i].refs[k].spell % 9 == 6 && files[t].path.contains('/') && files[t].refs.iter().any(|r| r.spell % 9 != 7) {
                    files[i].refs[k].spell = rng.below(6) as u8;
                }
            }
        }
        let decoys = if rng.pct(40) { (0..rng.range(1, 6)).map(|_| (rng.below(DIRS.len() + 1) as u8, rng.below(n) as u16)).collect() } else { vec![] };
        let mut decoys: Vec<(u8, u16)> = decoys;
        let missing = (n > 1 && rng.pct(6)).then(|| rng.range(1, n - 1) as u16);
        if let Some(m) = missing.filter(|_| rng.pct(60)) {
            decoys.extend((0..=DIRS.len()).map(|d| (d as u8, m)));
        }
        Sc {
            decoys,
            missing,
            files,
            root_spell: rng.below(4) as u8,
            as_text: rng.pct(25),
            cwd: rng.below(3) as u8,
            chdir: if rng.pct(30) { (0..rng.range(1, 3)).map(|_| rng.below(12) as u32).collect() } else { vec![] },
            hash_seed: rng.next(),
        }
    }

    fn exec(sc: &Sc, env: &Env) -> Outcome {
        let mut o = Outcome::default();
        if sc.files.is_empty() {
            return o;
        }
        let top = fresh_dir(&env.scratch.join("c05"));
        let top = top.canonicalize().expect("scratch");
        let base = top.join("base");
        for d in DIRS {
            std::fs::create_dir_all(base.join(d)).expect("dirs");
        }
        let b = base.to_string_lossy().into_owned();
        let mut paths: Vec<String> = Vec::new();
        for f in &sc.files {
            let p = safe(&f.path);
            if paths.contains(&p) {
                return o; // two files at one path: not a scenario
            }
            paths.push(p);
        }
        for i in 0..sc.files.len() {
            if sc.missing != Some(i as u16) {
                put(&base, &paths[i], sc.text(i, &b).as_bytes());
            }
        }
        for (d, f) in &sc.decoys {
            let f = paths[*f as usize % paths.len()].rsplit('/').next().unwrap_or("x").to_string();
            let text = format!("<xs:schema xmlns:xs=\"{XSD}\"><xs:element name=\"Decoy\" type=\"xs:string\"/></xs:schema>");
            let d = *d as usize % (DIRS.len() + 1);
            if d == DIRS.len() {
                put(&top, &f, text.as_bytes());
                continue;
            }
            let p = safe(&format!("{}/{f}", DIRS[d]));
            if !paths.contains(&p) {
                put(&base, &p, text.as_bytes());
                o.probe("decoy_file");
            }
        }
        let _ = std::os::unix::fs::symlink(".", base.join("self"));
        for p in &paths {
            let d = dir_of(p);
            let _ = std::os::unix::fs::symlink(base.join(d), base.join(format!("ln_{}", d.replace('/', "_"))));
            let _ = std::os::unix::fs::symlink(base.join(p), base.join(format!("fl_{}", p.replace('/', "_"))));
        }
        // a reference through a link resolves its own references against the link's directory: the file
        // link "fl_..." lies in the base directory, so only files there may be reached by it with relative
        // references of their own. Give such files absolute or no spelling problems by placing the rule here:
        // (see `reach_ok`)
        if !reach_ok(sc, &paths) {
            o.trivial = true;
            o.probe("skipped_ambiguous_link");
            let _ = std::fs::remove_dir_all(&top);
            return o;
        }
        let relative_root = sc.root_spell % 4 == 1 || sc.root_spell % 4 == 2;
        let cwd = if relative_root { base.clone() } else { [top.clone(), base.clone(), base.join("sub")][sc.cwd as usize % 3].clone() };
        let root: PathBuf = match sc.root_spell % 4 {
            0 => base.join(&paths[0]),
            1 => PathBuf::from(&paths[0]),
            2 => PathBuf::from(format!("./{}", paths[0])),
            _ => base.join("sub/..").join(&paths[0]),
        };
        let mut chdirs = Vec::new();
        if !relative_root {
            for (k, n) in sc.chdir.iter().enumerate() {
                let d = [top.clone(), base.join("sub"), base.join("lib")][k % 3].clone();
                chdirs.push((*n, std::ffi::CString::new(d.to_string_lossy().as_bytes()).unwrap()));
            }
        }
        let ncd = chdirs.len();
        let as_text = (sc.as_text && sc.missing != Some(0)).then(|| sc.text(0, &b));
        if as_text.is_some() {
            o.probe("root_given_as_text");
        }
        std::env::set_current_dir(&cwd).expect("cwd");
        sys::fs_install(FsState { chdirs, ..Default::default() });
        let res = sys::run_single(sc.hash_seed, move || {
            let r = match as_text {
                Some(text) => Schema::parse(&text, &root),
                None => Schema::parse_file(&root),
            };
            sys::outside(|| r)
        });
        let st = sys::fs_take();
        std::env::set_current_dir("/").expect("cwd");
        let opens = st.files.len();
        o.steps = opens as u64;
        let edges: usize = sc.files.iter().map(|f| f.refs.len()).sum();
        o.trivial = edges == 0;
        for _ in 0..ncd {
            if st.opens > 0 {
                o.fault("chdir_during_load");
            }
        }
        let reach = sc.reach();
        let mut want: BTreeSet<(String, String)> = BTreeSet::new();
        for i in &reach {
            let f = &sc.files[*i];
            let ns = uri(f.ns);
            if sc.same(*i) {
                want.insert(("SameElement".to_string(), ns.clone()));
                want.insert(("SameType".to_string(), ns.clone()));
            }
            for k in 0..f.elements {
                want.insert((mark("El", *i, k), ns.clone()));
            }
            for k in 0..f.types {
                want.insert((mark("Ty", *i, k), ns.clone()));
            }
        }
        let lost = sc.missing.map(|m| m as usize).filter(|m| reach_without(sc, *m));
        match res {
            Err(p) => o.fail("panic", format!("loading panicked: {p}")),
            Ok(r) if lost.is_some() => {
                o.probe("missing_file");
                if r.is_ok() {
                    o.fail("loaded_without_file", format!("{} does not exist, but loading succeeds", paths[lost.unwrap_or(0)]));
                }
            }
            Ok(Err(e)) => o.fail("load_error", format!("complete readable files, but: {}", error_chain(&e).replace(&b, "BASE"))),
            Ok(Ok(s)) => {
                let got: BTreeSet<(String, String)> = s.elements().map(|(n, _)| (n.name.clone(), ns_uri(&s, n.namespace))).collect();
                if got != want {
                    let missing: Vec<_> = want.difference(&got).take(3).collect();
                    let extra: Vec<_> = got.difference(&want).take(3).collect();
                    o.fail(
                        if missing.is_empty() { "extra_declarations" } else { "missing_declarations" },
                        format!("missing {missing:?} extra {extra:?}"),
                    );
                }
                // what is generated for one type has to include everything it uses
                for i in &reach {
                    if sc.files[*i].types == 0 {
                        continue;
                    }
                    let n = mark("Ty", *i, 0);
                    let Some((name, _)) = s.elements().find(|(x, _)| x.name == n) else { continue };
                    let mut done = std::collections::HashSet::new();
                    match s.generate_element_and_dependencies(name, &mut done) {
                        Ok(t) => {
                            let t = t.to_string();
                            for d in sc.uses(*i) {
                                let d = mark("Ty", d, 0);
                                if !t.contains(&format!("pub struct {d} ")) {
                                    o.fail("missing_dependency", format!("{n} uses {d}, which is not generated with it"));
                                }
                            }
                            o.probe("dependencies_checked");
                        }
                        Err(e) => o.fail("generate_error", format!("{n}: {e}")),
                    }
                }
                let code = sys::run_single(sc.hash_seed, move || s.generate_all().map(|t| t.to_string()).map_err(|e| e.to_string()));
                match code {
                    Ok(Ok(c)) => {
                        for (n, _) in &want {
                            if !c.contains(&format!("pub struct {n} ")) {
                                o.fail("missing_code", format!("no code for {n}"));
                            }
                        }
                    }
                    Ok(Err(e)) => o.fail("generate_error", e),
                    Err(p) => o.fail("panic", format!("generation panicked: {p}")),
                }
                o.note(format!("{got:?}").as_bytes());
            }
        }
        if opens > edges + 1 + sc.missing.is_some() as usize {
            o.fail("reads_unbounded", format!("{opens} opens for {} files and {edges} references", sc.files.len()));
        }
        if st.files.iter().any(|f| !f.closed) {
            o.fail("leak", "a file was left open");
        }
        let g: Vec<String> = sc.files.iter().map(|f| format!("{}{}{:?}", f.path, f.ns, f.refs.iter().map(|r| (r.to, r.spell, r.after)).collect::<Vec<_>>())).collect();
        o.sig = hash_bytes(sc.root_spell as u64, format!("{g:?}{:?}{}", sc.chdir, sc.cwd).as_bytes());
        let cyc = has_cycle(sc);
        if cyc {
            o.probe("cyclic_graph");
        }
        if reach.len() < sc.files.len() {
            o.probe("unreachable_file");
        }
        if edges > reach.len() {
            o.probe("file_referenced_twice");
        }
        if sc.files.iter().any(|f| f.refs.iter().any(|r| r.spell % 9 >= 5)) {
            o.probe("reference_through_link_or_absolute");
        }
        o.note(format!("{opens} {want:?}").as_bytes());
        let _ = std::fs::remove_dir_all(&top);
        o
    }
}

/// The missing file `m` is there to be followed from the root.
fn reach_without(sc: &Sc, m: usize) -> bool {
    m > 0 && sc.reach().contains(&m)
}

/// File names as people choose them.
fn name(rng: &mut Rng, i: usize) -> String {
    match rng.below(10) {
        7 => format!("what?{i}.xsd"),
        0 => format!("part {i}.xsd"),
        1 => format!("F{i}.XSD"),
        2 => format!("types.v{i}.xsd"),
        3 => format!("größe-{i}.xsd"),
        4 => format!("f_{i}"),
        5 => format!(".f{i}.xsd"),
        6 => format!("{i}+({i}).xsd"),
        _ => format!("f{i}.xsd"),
    }
}

fn has_cycle(sc: &Sc) -> bool {
    fn go(sc: &Sc, i: usize, st: &mut Vec<u8>) -> bool {
        st[i] = 1;
        for r in &sc.files[i].refs {
            let t = r.to % sc.files.len();
            if st[t] == 1 || (st[t] == 0 && go(sc, t, st)) {
                return true;
            }
        }
        st[i] = 2;
        false
    }
    go(sc, 0, &mut vec![0; sc.files.len()])
}

/// A file reached through a link to the file itself ("fl_..", in the base directory) may have its relative
/// references resolved against the link's directory or the file's own; both readings agree only if the file
/// lies in the base directory or has no relative references.
fn reach_ok(sc: &Sc, paths: &[String]) -> bool {
    for f in &sc.files {
        for r in &f.refs {
            if r.spell % 9 == 6 {
                let t = r.to % sc.files.len();
                if paths[t].contains('/') && sc.files[t].refs.iter().any(|r| r.spell % 9 != 7) {
                    return false;
                }
            }
        }
    }
    true
}
