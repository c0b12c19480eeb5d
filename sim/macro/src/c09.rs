//! C09: compile-time expansion under I/O faults is all-or-nothing.
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::modelgen::{gen_model, Feat};
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use xsd_internal::xsd::schema::Schema;

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc {
    mods: Vec<Mod>,
    runs: Vec<Run>,
    /// What the directory of the package is called.
    #[serde(default)]
    dir: usize,
}
const DIRS: &[&str] = &["pkg", "c++ pkg", "été@2", "a#b%20c?", "$HOME", "~pkg-1.2", "{pkg}"];
/// One module with the attribute.
#[derive(Serialize, Deserialize, Clone)]
struct Mod {
    /// Schema files, the first is the root. They lie in a directory of the module's number.
    files: Vec<(String, String)>,
    damage: Option<(usize, Damage)>,
    spell: Spell,
    vis: usize,
    before: Vec<usize>,
    after: Vec<usize>,
    inner: Vec<usize>,
    items: Vec<usize>,
    #[serde(default)]
    name: usize,
    /// Names the schema of the first module.
    #[serde(default)]
    again: bool,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Damage {
    Missing,
    Directory,
    Cut(u32),
    NotUtf8,
    Dangling,
    Empty,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Spell {
    Plain,
    Dot,
    UpDown,
    Absolute,
    Link,
    /// Beside the package.
    Above,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Run {
    cwd: Cwd,
    seed: u64,
    cross_thread: bool,
    faults: Vec<Fault>,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Cwd {
    Package,
    Parent,
    /// Another directory with other schemas under the same names.
    Decoy,
    Root,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Fault {
    call: Call,
    nth: u32,
    act: Act,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Call {
    Open,
    Read,
    Stat,
    Path,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Act {
    Errno(i32),
    Short(u32),
    Eof,
    Size(u64),
}

pub struct C09;

const VIS: &[&str] = &["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate::outer) ", "pub(self) "];
const NAMES: &[[&str; 4]] = &[["user_first", "r#match", "été", "User__X"], ["user_second", "r#type", "schéma", "r#loop"]];
const OUTER: &[&str] = &[
    "#[allow(dead_code)]",
    "/// Documentation of the module.",
    "#[cfg(all())]",
    "#[deprecated(note = \"old\")]",
    "#[doc = \"more \\\"quoted\\\" text\"]",
    "#[cfg_attr(all(), allow(unused))]",
    "/** Block documentation */",
];
const INNER: &[&str] = &["#![allow(unused_imports)]", "//! Inner documentation.", "#![warn(missing_debug_implementations)]"];
const ITEMS: &[&str] = &[
    "pub struct UserUnit;",
    "/// Documented.\n#[derive(Debug, Clone, PartialEq)]\npub struct UserPoint<T: Clone = u8> { pub user_x: T, #[allow(unused)] user_y: Option<i32> }",
    "pub fn user_answer(n: u32) -> u32 { let user_k = n * 2; user_k + 40 }",
    "const USER_TEXT: &str = \"a // b /* c */ \\u{e9} {{}}\";",
    "pub static USER_LIST: [u8; 3] = [1, 2, 3];",
    "pub mod user_inner { pub struct UserDeep; impl UserDeep { pub fn user_depth(&self) -> usize { 2 } } }",
    "#[derive(Debug)]\npub enum UserKind { First, Second(u8), Third { user_v: String } }",
    "macro_rules! user_twice { ($e:expr) => { $e + $e }; }",
    "pub fn user_macro_user() -> i32 { let v: Vec<i32> = vec![1, 2]; v.iter().sum() }",
    "#[cfg(any())]\npub struct UserGone;",
    "pub trait UserTrait { const USER_N: usize; fn user_required(&self) -> bool; fn user_provided(&self) -> bool { !self.user_required() } }",
    "pub type UserAlias<'a> = std::borrow::Cow<'a, str>;",
    "use std::collections::BTreeMap as UserMap;",
    "pub fn r#match<'a, T>(user_t: &'a [T]) -> Option<&'a T> where T: PartialOrd + 'a { user_t.first() }",
    "pub union UserUnion { pub user_a: u32, pub user_b: f32 }",
    "pub async fn user_async() -> u8 { 9 }",
    "impl UserHost { pub const USER_C: u64 = 0xdead_beef; }\npub struct UserHost;",
    "#[allow(non_camel_case_types)]\npub struct user_lower;\nimpl user_lower {}",
    "#[rustfmt::skip]\npub fn user_shadow() -> Result<(), String> { Err(String::from(\"x\")) }",
    "pub(self) const _: () = { assert!(1 + 1 == 2); };",
    "pub use self::user_reexport::UserHidden;\nmod user_reexport { pub struct UserHidden; }",
    "impl std::fmt::Display for UserShown { fn fmt(&self, user_f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { user_f.write_str(\"shown\") } }\npub struct UserShown;",
    "extern crate std as user_std;",
    "#[test]\nfn user_test() {}",
    "thread_local! { static USER_TLS: std::cell::Cell<u8> = const { std::cell::Cell::new(1) }; }",
    "extern \"C\" { fn user_ext(); }",
    "pub unsafe extern \"C\" fn user_c(user_p: *const u8) -> u8 { unsafe { *user_p } }",
];

struct Tools {
    rustc: PathBuf,
    args: Vec<String>,
    shim: PathBuf,
}
fn tools() -> &'static Tools {
    static T: OnceLock<Tools> = OnceLock::new();
    T.get_or_init(|| {
        let v = PathBuf::from(std::env::var("VERIF_DIR").expect("VERIF_DIR"));
        let log = std::fs::read_to_string(v.join("work/macro-build.json")).expect("build messages");
        let mut found: BTreeMap<String, String> = BTreeMap::new();
        for l in log.lines() {
            let Ok(m) = serde_json::from_str::<Value>(l) else { continue };
            if m["reason"] != "compiler-artifact" {
                continue;
            }
            let name = m["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if name == "xsd" || name == "rust_decimal" {
                for f in m["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                    if f.ends_with(".rlib") {
                        found.insert(name.clone(), f.to_string());
                    }
                }
            }
        }
        assert!(found.len() == 2, "crates to link against not found");
        let mut args = Vec::new();
        for (name, f) in &found {
            args.extend(["--extern".to_string(), format!("{name}={f}"), "-L".to_string(), format!("dependency={}", Path::new(f).parent().unwrap().display())]);
        }
        let out = Command::new("rustc").args(["--print", "sysroot"]).output().expect("rustc");
        let root = String::from_utf8(out.stdout).unwrap();
        Tools { rustc: Path::new(root.trim()).join("bin/rustc"), args, shim: v.join("work/macro-shim.so") }
    })
}

/// What one compiler run did.
struct Done {
    ok: bool,
    crashed: Option<String>,
    out: String,
    err: String,
    log: Vec<(String, String)>,
}

#[allow(clippy::too_many_arguments)]
fn rustc(main: &Path, pkg: &Path, cwd: &Path, seed: u64, cross: bool, plan: &str, scratch: &Path) -> Done {
    let t = tools();
    let log = scratch.join("calls.log");
    let _ = std::fs::remove_file(&log);
    let mut c = Command::new(&t.rustc);
    c.arg(main)
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "demo", "--cap-lints", "allow", "-Zunpretty=expanded"])
        .args(&t.args)
        .current_dir(cwd)
        .env("RUSTC_BOOTSTRAP", "1")
        .env("CARGO_MANIFEST_DIR", pkg)
        .env("LD_PRELOAD", &t.shim)
        .env("SIM_PKG", pkg)
        .env("SIM_LOG", &log)
        .env("SIM_SEED", seed.to_string())
        .env("SIM_PLAN", plan)
        .env("TMPDIR", scratch)
        .env_remove("RUST_BACKTRACE")
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null());
    if cross {
        c.arg("-Zproc-macro-execution-strategy=cross-thread");
    }
    unsafe {
        c.pre_exec(|| {
            let r = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            Ok(())
        });
    }
    let o = c.output().expect("run rustc");
    let dir = scratch.to_string_lossy().into_owned();
    let text = |b: Vec<u8>| String::from_utf8_lossy(&b).replace(&dir, "D");
    let (out, err) = (text(o.stdout), text(o.stderr));
    let mut crashed = None;
    if let Some(s) = o.status.signal() {
        crashed = Some(format!("the compiler died of signal {s}"));
    } else if err.contains("panicked") || err.contains("internal compiler error") || err.contains("stack overflow") || o.status.code() == Some(101) {
        crashed = Some(format!("the expansion panicked: {}", err.chars().take(500).collect::<String>()));
    }
    let log = std::fs::read_to_string(&log)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // the path comes last and may contain spaces
            let at = l.find(" /").or_else(|| l.rfind(' '))?;
            l.contains(".xsd").then(|| (l[..at].trim().to_string(), l[at + 1..].replace(&dir, "D")))
        })
        .collect();
    Done { ok: o.status.success(), crashed, out, err, log }
}

fn safe(p: &str) -> String {
    let parts: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != "." && *c != "..").collect();
    parts.join("/")
}
fn put(f: &Path, data: &[u8]) {
    if let Some(d) = f.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(f, data);
}
/// The lines of an expansion with their number. Documentation counts by its text, comment or attribute.
fn lines(s: &str) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for l in s.lines().map(str::trim).filter(|l| !l.is_empty() && *l != "}" && *l != "{") {
        let strip = |l: &str, a: &str, z: &str| l.strip_prefix(a).and_then(|l| l.strip_suffix(z)).map(|l| l.trim().replace("\\\"", "\""));
        let doc = strip(l, "///", "")
            .or_else(|| strip(l, "//!", ""))
            .or_else(|| strip(l, "/**", "*/"))
            .or_else(|| strip(l, "#[doc = r\"", "\"]"))
            .or_else(|| strip(l, "#![doc = r\"", "\"]"))
            .or_else(|| strip(l, "#[doc = \"", "\"]"))
            .or_else(|| strip(l, "#![doc = \"", "\"]"));
        *m.entry(doc.map_or_else(|| l.to_string(), |d| format!("documentation {d}"))).or_default() += 1;
    }
    m
}
fn pick<'a>(all: &[&'a str], ix: &[usize]) -> Vec<&'a str> {
    let mut seen = Vec::new();
    for i in ix {
        let i = i % all.len();
        if !seen.contains(&i) {
            seen.push(i);
        }
    }
    seen.into_iter().map(|i| all[i]).collect()
}

impl Mod {
    fn schema(&self, k: usize, pkg: &Path) -> String {
        let root = safe(&self.files[0].0);
        match self.spell {
            Spell::Plain => format!("s{k}/{root}"),
            Spell::Dot => format!("./s{k}//{root}"),
            Spell::UpDown => format!("s{k}/../s{k}/{root}"),
            Spell::Absolute => pkg.join(format!("s{k}/{root}")).to_string_lossy().into_owned(),
            Spell::Link => format!("link{k}/{root}"),
            Spell::Above => format!("../above{k}/{root}"),
        }
    }
    fn text(&self, k: usize, attr: Option<String>, body: &str) -> String {
        let mut s = String::new();
        for a in pick(OUTER, &self.before) {
            s.push_str(a);
            s.push('\n');
        }
        if let Some(p) = attr {
            s.push_str(&format!("#[xsd::all(schema = {p:?})]\n"));
        }
        let b = pick(OUTER, &self.before);
        for a in pick(OUTER, &self.after).iter().filter(|a| !b.contains(a)) {
            s.push_str(a);
            s.push('\n');
        }
        s.push_str(&format!("{}mod {} {{\n", VIS[self.vis % VIS.len()], if self.name == 0 { format!("user_mod{k}") } else { NAMES[k % 2][self.name % NAMES[0].len()].to_string() }));
        for a in pick(INNER, &self.inner) {
            s.push_str(a);
            s.push('\n');
        }
        for a in pick(ITEMS, &self.items) {
            s.push_str(a);
            s.push('\n');
        }
        s.push_str(body);
        s.push_str("\n}\n");
        s
    }
}

fn gen_fault(rng: &mut Rng, mode: usize) -> Fault {
    let nth = if rng.pct(60) { rng.below(4) } else { rng.below(30) } as u32;
    let (call, act) = match mode {
        0 => match rng.below(6) {
            0 => (Call::Open, Act::Errno(libc::EINTR)),
            1 => (Call::Read, Act::Errno(libc::EINTR)),
            2..=3 => (Call::Read, Act::Short(*rng.pick(&[1, 2, 7, 32, 33, 500]))),
            4 => (Call::Stat, Act::Size(*rng.pick(&[0, 1, 50, 4096, 1_000_000]))),
            _ => (Call::Stat, Act::Errno(*rng.pick(&[libc::EIO, libc::EACCES]))),
        },
        1 => match rng.below(9) {
            0..=3 => (Call::Open, Act::Errno(*rng.pick(&[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO, libc::ELOOP, libc::ENOMEM, libc::ESTALE]))),
            4..=7 => (Call::Read, Act::Errno(*rng.pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ESTALE, libc::EAGAIN, libc::ETIMEDOUT]))),
            _ => (Call::Path, Act::Errno(*rng.pick(&[libc::EACCES, libc::ENOENT, libc::EIO]))),
        },
        _ => (Call::Read, if rng.pct(50) { Act::Eof } else { Act::Short(rng.range(1, 300) as u32) }),
    };
    Fault { call, nth, act }
}

fn plan(f: &[Fault]) -> String {
    let v: Vec<String> = f
        .iter()
        .map(|f| {
            let c = match f.call {
                Call::Open => 'o',
                Call::Read => 'r',
                Call::Stat => 's',
                Call::Path => 'p',
            };
            let a = match f.act {
                Act::Errno(e) => format!("e{}", if e <= 0 { libc::EIO } else { e }),
                Act::Short(n) => format!("s{}", n.max(1)),
                Act::Eof => "z0".into(),
                Act::Size(n) => format!("n{n}"),
            };
            format!("{c}:{}:{a}", f.nth)
        })
        .collect();
    v.join(",")
}

impl Prop for C09 {
    type Sc = Sc;
    const ID: &'static str = "C09";
    const RUNS: (u64, u64) = (700, 30_000);
    const RULE: &'static str = "one run = one package of one or two modules expanded by several compiler processes that differ in working directory, hash seeds, execution strategy of the macro and fault plan; non-trivial: a fault fired, a file was damaged, or the processes differ; distinct: by (schemas, module shapes, faults fired, outcomes)";
    const REAL: &'static str = "rustc, the xsd-derive proc macro and xsd-internal (unmodified), the standard library's file code; real files in a scratch directory";
    const STUB: &'static str = "a preloaded library stands in front of open/read/statx/close/realpath on schema files and of getrandom in the compiler process";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let mut mods: Vec<Mod> = Vec::new();
        let n = if rng.pct(25) { 2 } else { 1 };
        for _ in 0..n {
            let m = gen_model(rng, &Feat { files: 3, decls: 3, depth: 2, compilable: true });
            let files = simcore::model::xsd_files(&m);
            let damage = rng.pct(12).then(|| {
                let d = match rng.below(6) {
                    0 => Damage::Missing,
                    1 => Damage::Directory,
                    2 => Damage::Cut(rng.below(1000) as u32),
                    3 => Damage::NotUtf8,
                    4 => Damage::Empty,
                    _ => Damage::Dangling,
                };
                (rng.below(files.len()), d)
            });
            let mut some = |n: usize, k: usize| -> Vec<usize> { (0..rng.below(n)).map(|_| rng.below(k)).collect() };
            let (before, after, inner, items) = (some(3, OUTER.len()), some(3, OUTER.len()), some(3, INNER.len()), some(6, ITEMS.len()));
            mods.push(Mod {
                files,
                damage,
                spell: *rng.pick(&[Spell::Plain, Spell::Plain, Spell::Dot, Spell::UpDown, Spell::Absolute, Spell::Link, Spell::Above]),
                vis: rng.below(VIS.len()),
                before,
                after,
                inner,
                items,
                again: rng.pct(35),
                name: if rng.pct(25) { rng.range(1, 3) } else { 0 },
            });
        }
        let mut runs = Vec::new();
        for _ in 0..rng.range(2, 5) {
            let mut faults = Vec::new();
            match rng.below(8) {
                0 => {}
                1..=2 => (0..rng.range(1, 5)).for_each(|_| faults.push(gen_fault(rng, 0))),
                3..=5 => {
                    faults.push(gen_fault(rng, 1));
                    (0..rng.below(3)).for_each(|_| faults.push(gen_fault(rng, 0)));
                }
                _ => (0..rng.range(1, 3)).for_each(|_| faults.push(gen_fault(rng, 2))),
            }
            runs.push(Run {
                cwd: *rng.pick(&[Cwd::Package, Cwd::Parent, Cwd::Decoy, Cwd::Decoy, Cwd::Root]),
                seed: rng.next() >> 1,
                cross_thread: rng.pct(40),
                faults,
            });
        }
        let dir = if rng.pct(40) { rng.below(DIRS.len()) } else { 0 };
        Sc { mods, runs, dir }
    }

    fn exec(sc: &Sc, env: &Env) -> Outcome {
        let mut o = Outcome::default();
        if sc.mods.is_empty() || sc.mods.iter().any(|m| m.files.is_empty()) {
            return o;
        }
        let top = env.scratch.join("c09");
        let _ = std::fs::remove_dir_all(&top);
        let dir = DIRS[sc.dir % DIRS.len()];
        let pkg = top.join("work").join(dir);
        let decoy = top.join("decoy");
        for d in [&pkg, &decoy] {
            std::fs::create_dir_all(d).expect("scratch");
        }
        // the files, and other ones under the same names elsewhere
        let wrong = "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:element name=\"WrongDirectory\" type=\"xs:string\"/></xs:schema>";
        let mut bodies: Vec<String> = Vec::new();
        for (k, m) in sc.mods.iter().enumerate() {
            for (p, t) in &m.files {
                put(&pkg.join(format!("s{k}")).join(safe(p)), t.as_bytes());
                for d in [&decoy, &top.join("work"), &pkg] {
                    let f = d.join(format!("s{k}")).join(safe(p));
                    if d != &pkg {
                        put(&f, wrong.as_bytes());
                    }
                }
                put(&decoy.join(format!("link{k}")).join(safe(p)), wrong.as_bytes());
                put(&top.join(format!("above{k}")).join(safe(p)), wrong.as_bytes());
                put(&pkg.join(safe(p)), wrong.as_bytes());
            }
            let _ = std::os::unix::fs::symlink(format!("s{k}"), pkg.join(format!("link{k}")));
            let _ = std::os::unix::fs::symlink(format!("{dir}/s{k}"), top.join(format!("work/above{k}")));
            let root = pkg.join(format!("s{k}")).join(safe(&m.files[0].0));
            // the API the intact schema describes
            let code = std::panic::catch_unwind(|| Schema::parse_file(&root).ok().and_then(|s| s.generate_all().ok()).map(|t| t.to_string()));
            if m.again && k > 0 {
                o.probe("one_schema_twice");
                bodies.push(bodies[0].clone());
                continue;
            }
            match code {
                Ok(Some(c)) => bodies.push(c),
                _ => {
                    o.trivial = true;
                    o.probe("unusable_schema");
                    return o;
                }
            }
        }
        let wrap = |s: String| format!("pub mod outer {{\n{s}}}\n");
        let main = top.join("main.rs");
        let inline = top.join("inline.rs");
        put(&main, wrap(sc.mods.iter().enumerate().map(|(k, m)| m.text(k, Some(if m.again && k > 0 { Mod { spell: m.spell, ..sc.mods[0].clone() }.schema(0, &pkg) } else { m.schema(k, &pkg) }), "")).collect()).as_bytes());
        put(&inline, wrap(sc.mods.iter().enumerate().zip(&bodies).map(|((k, m), b)| m.text(k, None, b)).collect()).as_bytes());

        let want = rustc(&inline, &pkg, &pkg, 1, false, "", &top);
        if !want.ok {
            o.trivial = true;
            o.probe("unusable_schema");
            o.note(want.err.as_bytes());
            if std::env::var("SIM_LOG").is_ok() { eprintln!("{}", want.err.chars().take(600).collect::<String>()); }
            let _ = std::fs::remove_dir_all(&top);
            return o;
        }
        let healthy = rustc(&main, &pkg, &pkg, 1, false, "", &top);
        o.steps += 2;
        'all: {
            if let Some(c) = &healthy.crashed {
                o.fail("crash", c.clone());
                break 'all;
            }
            if !healthy.ok {
                o.fail("spurious_error", format!("the expansion fails on a healthy file system: {}", healthy.err.chars().take(600).collect::<String>()));
                break 'all;
            }
            let have = lines(&healthy.out);
            for (l, n) in lines(&want.out) {
                if have.get(&l).copied().unwrap_or(0) < n {
                    o.fail("missing", format!("the expansion lacks (or changes) the line {l:?}"));
                    break 'all;
                }
            }
            o.probe("complete_expansion");
            // damage on disk
            let opened: Vec<PathBuf> = healthy
                .log
                .iter()
                .filter(|(a, _)| a.starts_with("open f"))
                .filter_map(|(_, p)| std::fs::canonicalize(p.replacen('D', &top.to_string_lossy(), 1)).ok())
                .collect();
            let mut damaged: Vec<String> = Vec::new();
            for (k, m) in sc.mods.iter().enumerate() {
                let Some((i, d)) = &m.damage else { continue };
                let (p, t) = &m.files[*i % m.files.len()];
                let f = pkg.join(format!("s{k}")).join(safe(p));
                if !std::fs::canonicalize(&f).is_ok_and(|f| opened.contains(&f)) {
                    continue;
                }
                o.fault(&format!("damage_{}", format!("{d:?}").split('(').next().unwrap_or("").to_lowercase()));
                let _ = std::fs::remove_file(&f);
                match d {
                    Damage::Missing => {}
                    Damage::Directory => {
                        let _ = std::fs::create_dir_all(&f);
                    }
                    Damage::Cut(n) => {
                        // never only the tail behind the document
                        let end = t.trim_end().len().saturating_sub(1);
                        put(&f, &t.as_bytes()[..end * (*n).min(1000) as usize / 1000]);
                    }
                    Damage::NotUtf8 => put(&f, &[b"<a>\xff\xfe</a>", t.as_bytes()].concat()),
                    Damage::Empty => put(&f, b""),
                    Damage::Dangling => {
                        let _ = std::os::unix::fs::symlink("nowhere.xsd", &f);
                    }
                }
                damaged.push(f.file_name().unwrap().to_string_lossy().into_owned());
            }
            for r in &sc.runs {
                let cwd = match r.cwd {
                    Cwd::Package => pkg.clone(),
                    Cwd::Parent => top.join("work"),
                    Cwd::Decoy => decoy.clone(),
                    Cwd::Root => PathBuf::from("/"),
                };
                // place the faults on calls that happen
                let count = |w: &str| healthy.log.iter().filter(|(a, _)| a.starts_with(w)).count() as u32;
                let mut faults: Vec<Fault> = Vec::new();
                for f in &r.faults {
                    let n = match f.call {
                        Call::Open => count("open"),
                        Call::Read => count("read"),
                        Call::Stat => count("stat"),
                        Call::Path => count("path"),
                    };
                    if n == 0 {
                        continue;
                    }
                    let nth = f.nth % if matches!(f.act, Act::Errno(e) if e != libc::EINTR) { n } else { n + 3 };
                    if !faults.iter().any(|g| g.call == f.call && g.nth == nth) {
                        faults.push(Fault { call: f.call, nth, act: f.act });
                    }
                }
                let d = rustc(&main, &pkg, &cwd, r.seed, r.cross_thread, &plan(&faults), &top);
                o.steps += 1 + d.log.len() as u64;
                if r.cwd != Cwd::Package {
                    o.fault("other_working_directory");
                }
                if r.cross_thread {
                    o.fault("macro_on_own_thread");
                }
                o.fault("hash_seed");
                // what fired
                let mut fatal: Vec<String> = Vec::new();
                let mut causes: Vec<(String, i32)> = Vec::new();
                let mut cut = false;
                for (a, p) in &d.log {
                    let w: Vec<&str> = a.split(' ').collect();
                    let (call, act) = (w[0], w.get(1).copied().unwrap_or(""));
                    let name = p.rsplit('/').next().unwrap_or("").to_string();
                    if act == format!("e{}", libc::EINTR) {
                        o.fault(&format!("{call}_eintr"));
                    } else if act.starts_with('e') {
                        o.fault(&format!("{call}_error"));
                        if call != "stat" {
                            fatal.push(name.clone());
                            causes.extend(act[1..].parse().ok().map(|e| (name.clone(), e)));
                        }
                    } else if act.starts_with('E') {
                        fatal.push(name.clone());
                        causes.extend(act[1..].parse().ok().map(|e| (name.clone(), e)));
                    } else if act.starts_with('z') {
                        o.fault("read_early_eof");
                        cut = true;
                    } else if call == "read" && act.starts_with('s') {
                        o.fault("read_short");
                    } else if call == "stat" && act == "n" {
                        o.fault("wrong_size");
                    }
                    if call == "open" {
                        let fl = w.get(2).and_then(|f| i32::from_str_radix(f.trim_start_matches("0x"), 16).ok()).unwrap_or(0);
                        if fl & libc::O_ACCMODE != libc::O_RDONLY || fl & (libc::O_CREAT | libc::O_TRUNC) != 0 {
                            o.fail("write_open", format!("{name} opened with flags {fl:#x}"));
                        }
                    }
                }
                o.note(format!("{}{:?}{}{}", d.ok, d.log, d.out, d.err).as_bytes());
                o.sig = hash_bytes(o.sig, format!("{}{:?}{:?}", d.ok, d.log.iter().filter(|l| !l.0.contains(" f")).collect::<Vec<_>>(), r.cwd).as_bytes());
                let what = || format!("{:?} in {:?}", faults, r.cwd);
                if let Some(c) = &d.crashed {
                    o.fail("crash", format!("{c} ({})", what()));
                    break 'all;
                }
                if d.ok {
                    if d.out != healthy.out {
                        let k = d.out.bytes().zip(healthy.out.bytes()).take_while(|(a, b)| a == b).count();
                        let at = |s: &str| s.chars().skip(k.saturating_sub(60)).take(160).collect::<String>();
                        o.fail("different_api", format!("the build succeeds with another expansion ({}): {:?} instead of {:?}", what(), at(&d.out), at(&healthy.out)));
                        break 'all;
                    }
                    if let Some(f) = damaged.first() {
                        o.fail("different_api", format!("{f} is damaged on disk, yet the build succeeds"));
                        break 'all;
                    }
                    o.probe("same_expansion");
                } else {
                    if fatal.is_empty() && !cut && damaged.is_empty() {
                        o.fail("spurious_error", format!("nothing fatal happened ({}), but: {}", what(), d.err.chars().take(600).collect::<String>()));
                        break 'all;
                    }
                    if !d.err.contains("error") {
                        o.fail("no_diagnostic", format!("the build fails without a diagnostic ({})", what()));
                        break 'all;
                    }
                    if !fatal.is_empty() && !fatal.iter().any(|f| d.err.contains(f.as_str())) && !cut && !damaged.iter().any(|f| d.err.contains(f.as_str())) {
                        o.fail("diagnostic_names_no_file", format!("{fatal:?} could not be read, but the diagnostic says: {}", d.err.chars().take(600).collect::<String>()));
                        break 'all;
                    }
                    let named: Vec<&(String, i32)> = causes.iter().filter(|c| d.err.contains(c.0.as_str())).collect();
                    let says = |e: i32| {
                        let e = std::io::Error::from_raw_os_error(e);
                        let text = e.to_string();
                        d.err.contains(text.split(" (os error").next().unwrap_or("")) || d.err.contains(&e.kind().to_string())
                    };
                    if !named.is_empty() && !cut && damaged.is_empty() && !named.iter().any(|c| says(c.1)) {
                        o.fail("diagnostic_names_no_cause", format!("{named:?} could not be read, but the diagnostic says: {}", d.err.chars().take(600).collect::<String>()));
                        break 'all;
                    }
                    o.probe(if fatal.is_empty() { "content_error" } else { "io_error" });
                }
            }
        }
        o.sig = hash_bytes(o.sig, std::fs::read_to_string(&main).unwrap_or_default().replace(&*top.to_string_lossy(), "D").as_bytes());
        let _ = std::fs::remove_dir_all(&top);
        o
    }
}
