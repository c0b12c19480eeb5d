//! C04: loading under I/O faults is all-or-nothing.
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};
use simcore::modelgen::{gen_model, Feat};
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::sys::{self, Call, FsAct, FsFault, FsState};
use xsd_internal::xsd::schema::Schema;

use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    files: Vec<File>,
    faults: Vec<FsFault>,
    hash_seed: u64,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct File {
    path: String,
    text: String,
    /// Bytes of comment before the end tag, so that the file takes several reads.
    pad: u32,
    damage: Damage,
}
/// What the directory holds instead of the file.
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Damage {
    None,
    Missing,
    Directory,
    Dangling,
    LinkLoop,
    /// Cut at this per mille of its length.
    Cut(u32),
    /// This byte at this per mille of the file.
    Byte(u32, u8),
    /// Cut right after a tag (counted from the end).
    CutTag(u32),
    /// Overwritten in place by a shorter version: the end of the old one is still there.
    StaleTail(u32),
    /// The last bytes are zeros: the file was extended, but the data never arrived.
    ZeroTail(u32),
}

fn cut_point(c: &[u8], back: u32) -> usize {
    let mut ends: Vec<usize> = c.iter().enumerate().filter(|(_, b)| **b == b'>').map(|(i, _)| i + 1).collect();
    ends.pop();
    ends.iter().rev().nth(back as usize % ends.len().max(1)).copied().unwrap_or(0)
}

pub struct C04;

fn content(f: &File) -> Vec<u8> {
    let mut t = f.text.clone();
    if f.pad > 0 {
        let pad: String = (0..f.pad.min(400_000)).map(|i| if i % 61 == 60 { '\n' } else { (b'a' + (i % 23) as u8) as char }).collect();
        if let Some(i) = t.rfind("</") {
            t.insert_str(i, &format!("<!--{pad}-->"));
        }
    }
    t.into_bytes()
}

fn lay_out(dir: &Path, files: &[File]) {
    for f in files {
        let p = dir.join(safe(&f.path));
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        match &f.damage {
            Damage::None => put(dir, &f.path, &content(f)),
            Damage::Missing => {}
            Damage::Directory => {
                let _ = std::fs::create_dir_all(&p);
            }
            Damage::Dangling => {
                let _ = std::os::unix::fs::symlink("nowhere.xsd", &p);
            }
            Damage::LinkLoop => {
                let _ = std::os::unix::fs::symlink(p.file_name().unwrap_or_default(), &p);
            }
            Damage::Cut(k) => {
                let c = content(f);
                let n = (c.len() as u64 * (*k).min(1000) as u64 / 1000) as usize;
                put(dir, &f.path, &c[..n]);
            }
            Damage::CutTag(k) => {
                let c = content(f);
                put(dir, &f.path, &c[..cut_point(&c, *k)]);
            }
            Damage::StaleTail(k) => {
                let mut c = content(f);
                let n = c.len() - (*k as usize).clamp(1, c.len().max(1)).min(c.len());
                let t = c[n..].to_vec();
                c.extend(t);
                put(dir, &f.path, &c);
            }
            Damage::ZeroTail(k) => {
                let mut c = content(f);
                let n = c.len() - (*k as usize).min(c.len());
                for b in &mut c[n..] {
                    *b = 0;
                }
                put(dir, &f.path, &c);
            }
            Damage::Byte(k, b) => {
                let mut c = content(f);
                if !c.is_empty() {
                    let n = (c.len() as u64 * (*k).min(1000) as u64 / 1000) as usize;
                    let n = n.min(c.len() - 1);
                    c[n] = *b;
                }
                put(dir, &f.path, &c);
            }
        }
    }
}

pub struct Loaded {
    /// Description or error text; Err(panic).
    res: Result<Result<String, String>, String>,
    /// The numbers of the operating system's errors in the error, if it has any I/O error.
    codes: Option<Vec<i32>>,
    st: FsState,
}

fn load(root: &Path, faults: Vec<FsFault>, seed: u64) -> Loaded {
    sys::fs_install(FsState { faults, ..Default::default() });
    let root: PathBuf = root.to_path_buf();
    let res = sys::run_single(seed, move || {
        let r = Schema::parse_file(&root);
        sys::outside(|| r)
    });
    let st = sys::fs_take();
    let codes = match &res {
        Ok(Err(e)) => os_codes(e),
        _ => None,
    };
    // describing happens outside the simulated file system
    let res = match res {
        Err(p) => Err(p),
        Ok(Ok(s)) => sys::run_single(seed, move || describe(&s)).map(Ok),
        Ok(Err(e)) => Ok(Err(error_chain(&e))),
    };
    Loaded { res, codes, st }
}

fn os_codes(e: &(dyn std::error::Error + 'static)) -> Option<Vec<i32>> {
    let mut codes = None;
    let mut next = Some(e);
    while let Some(e) = next {
        let mut io = e.downcast_ref::<std::io::Error>();
        while let Some(e) = io {
            codes.get_or_insert_with(Vec::new).extend(e.raw_os_error());
            io = e.get_ref().and_then(|e| e.downcast_ref());
        }
        next = e.source();
    }
    codes
}

fn base_name(p: &[u8]) -> String {
    let s = String::from_utf8_lossy(p).into_owned();
    s.rsplit('/').next().unwrap_or("").to_string()
}

fn names(err: &str, file: &str, errno: i32) -> Option<&'static str> {
    if !err.contains(file) {
        return Some("file");
    }
    let msg = std::io::Error::from_raw_os_error(errno).to_string();
    let short = msg.split(" (os error").next().unwrap_or("").to_string();
    let kind = std::io::Error::from_raw_os_error(errno).kind().to_string();
    if err.contains(&short) || err.contains(&format!("os error {errno}")) || err.contains(&kind) {
        None
    } else {
        Some("cause")
    }
}

const OPEN_ERRS: &[i32] = &[
    libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ELOOP, libc::ENAMETOOLONG, libc::ENOMEM, libc::EPERM, libc::ENOTDIR,
    libc::ESTALE, libc::ENXIO, libc::EBUSY, libc::ETXTBSY, libc::EAGAIN, libc::ENODEV,
];
const READ_ERRS: &[i32] = &[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ESTALE, libc::EAGAIN, libc::ETIMEDOUT, libc::ENODATA, libc::EBADMSG, libc::ENXIO, libc::ECONNRESET];

fn gen_fault(rng: &mut Rng, mode: usize) -> FsFault {
    // mode 0: transparent, 1: hard errors, 2: content, 3: anything
    let mode = if mode == 3 { rng.below(3) } else { mode };
    let nth = if rng.pct(50) { rng.below(6) as u32 } else { rng.below(60) as u32 };
    match mode {
        0 => match rng.below(6) {
            0 => FsFault { call: Call::Open, nth, act: FsAct::Eintr },
            1 => FsFault { call: Call::Read, nth, act: FsAct::Eintr },
            2..=3 => FsFault { call: Call::Read, nth, act: FsAct::Short(*rng.pick(&[1, 2, 3, 7, 31, 32, 33, 100, 1000])) },
            4 => FsFault { call: Call::Stat, nth, act: FsAct::Size(*rng.pick(&[0, 1, 10, 100, 4096, 100_000, 3_000_000])) },
            _ => FsFault { call: Call::Stat, nth, act: FsAct::Errno(*rng.pick(&[libc::EIO, libc::EACCES, libc::EOVERFLOW])) },
        },
        1 => match rng.below(10) {
            0..=3 => FsFault { call: Call::Open, nth, act: FsAct::Errno(*rng.pick(OPEN_ERRS)) },
            4..=8 => FsFault { call: Call::Read, nth, act: FsAct::Errno(*rng.pick(READ_ERRS)) },
            _ => FsFault { call: Call::Realpath, nth, act: FsAct::Errno(*rng.pick(&[libc::EACCES, libc::ENOENT, libc::ELOOP, libc::EIO])) },
        },
        _ => match rng.below(3) {
            0 => FsFault { call: Call::Read, nth, act: FsAct::Eof },
            1 => FsFault { call: Call::Read, nth, act: FsAct::Flip(rng.next() as u32, 1 << rng.below(8)) },
            _ => FsFault { call: Call::Read, nth, act: FsAct::Short(rng.range(1, 600) as u32) },
        },
    }
}

impl Prop for C04 {
    type Sc = Sc;
    const ID: &'static str = "C04";
    const RUNS: (u64, u64) = (14_000, 1_200_000);
    const RULE: &'static str = "one run = one set of schema files loaded once without and once with a fault plan; non-trivial: at least one fault fired or a file was damaged; distinct: by (files opened, faults fired with kind and call index, outcome class)";
    const REAL: &'static str = "xsd-internal loader and generator (unmodified), roxmltree, the Rust standard library's file code; real files in a scratch directory";
    const STUB: &'static str = "libc open64/read/statx/close/realpath/getrandom entry points are intercepted in the simulator binary; faults are injected there";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let m = gen_model(rng, &Feat { files: 5, decls: 3, depth: 2, compilable: false });
        let mut files: Vec<File> = simcore::model::xsd_files(&m)
            .into_iter()
            .map(|(path, text)| File { path, text, pad: 0, damage: Damage::None })
            .collect();
        for f in files.iter_mut() {
            if rng.pct(25) {
                f.pad = *rng.pick(&[100, 5_000, 70_000, 300_000]);
            }
        }
        let mut faults = Vec::new();
        match rng.below(10) {
            0..=2 => {
                for _ in 0..rng.range(1, 8) {
                    faults.push(gen_fault(rng, 0));
                }
            }
            3..=5 => {
                faults.push(gen_fault(rng, 1));
                for _ in 0..rng.below(4) {
                    faults.push(gen_fault(rng, 0));
                }
            }
            6..=7 => {
                for _ in 0..rng.range(1, 3) {
                    faults.push(gen_fault(rng, 2));
                }
            }
            8 => {
                for _ in 0..rng.range(1, 5) {
                    faults.push(gen_fault(rng, 3));
                }
            }
            _ => {
                let i = if files.len() > 1 && rng.pct(60) { rng.range(1, files.len() - 1) } else { 0 };
                files[i].damage = match rng.below(13) {
                    8..=10 => Damage::CutTag(if rng.pct(70) { rng.below(6) as u32 } else { rng.below(200) as u32 }),
                    11 => Damage::StaleTail(*rng.pick(&[1, 2, 12, 13, 14, 60, 300])),
                    12 => Damage::ZeroTail(*rng.pick(&[1, 2, 13, 14, 100, 512])),
                    0 => Damage::Missing,
                    1 => Damage::Directory,
                    2 => Damage::Dangling,
                    3 => Damage::LinkLoop,
                    4..=5 => Damage::Cut(rng.below(1000) as u32),
                    6 => Damage::Byte(rng.below(1001) as u32, *rng.pick(&[0xff, 0x80, 0xc3, 0xed, 0, b'<', b'&', b'"', b'>'])),
                    _ => Damage::Cut(*rng.pick(&[0, 999, 1000, 500])),
                };
                for _ in 0..rng.below(3) {
                    faults.push(gen_fault(rng, 0));
                }
            }
        }
        Sc { files, faults, hash_seed: rng.next() }
    }

    fn exec(sc: &Sc, env: &Env) -> Outcome {
        let mut o = Outcome::default();
        if sc.files.is_empty() {
            return o;
        }
        let dir = fresh_dir(&env.scratch.join("c04"));
        lay_out(&dir, &sc.files);
        let root = dir.join(safe(&sc.files[0].path));
        let before = tree(&dir);

        let base = load(&root, vec![], sc.hash_seed);
        o.steps += 1;
        if let Err(p) = &base.res {
            o.fail("panic", format!("loading without faults panicked: {p}"));
            return o;
        }
        // damaged directories: errors have to name the file that could not be opened or read
        check_log(&mut o, &base, "without faults");
        let bres = base.res.clone().unwrap();
        if let Err(e) = &bres {
            check_err(&mut o, &base, e, sc.files.iter().any(|f| matches!(f.damage, Damage::Cut(_) | Damage::Byte(..) | Damage::CutTag(_) | Damage::StaleTail(_) | Damage::ZeroTail(_))));
        }
        for f in &sc.files {
            if f.damage != Damage::None {
                o.fault(&format!("damage_{}", format!("{:?}", f.damage).split('(').next().unwrap_or("").to_lowercase()));
            }
            if let Damage::Cut(_) | Damage::CutTag(_) = f.damage {
                let p = dir.join(safe(&f.path));
                let opened = base.st.files.iter().any(|l| l.path.ends_with(base_name(p.to_string_lossy().as_bytes()).as_bytes()) && l.open_errno == 0);
                let body = std::fs::read(&p).unwrap_or_default();
                if opened && !String::from_utf8_lossy(&body).trim_end().ends_with("schema>") && bres.is_ok() {
                    o.fail("partial", format!("{} was cut off, yet the schema loads", f.path));
                }
            }
        }

        // place the faults on calls that happen
        let mut faults: Vec<FsFault> = Vec::new();
        for f in &sc.faults {
            let mut f = f.clone();
            let n = base.st.counts[f.call as usize];
            if n == 0 {
                continue;
            }
            // short reads and retries add calls, so allow some indices beyond
            f.nth %= n + 4;
            if matches!(f.act, FsAct::Errno(_)) {
                f.nth %= n;
            }
            if !faults.iter().any(|g| g.call == f.call && g.nth == f.nth) {
                faults.push(f);
            }
        }
        if !faults.is_empty() {
            let run = load(&root, faults, sc.hash_seed);
            o.steps += run.st.counts.iter().map(|c| *c as u64).sum::<u64>();
            for (c, a, _) in &run.st.fired {
                o.fault(a.name(*c));
            }
            match &run.res {
                Err(p) => o.fail("panic", format!("loading panicked: {p}")),
                Ok(r) => {
                    check_log(&mut o, &run, "with faults");
                    judge(&mut o, sc, env, &bres, &run, r);
                }
            }
            let sig: Vec<String> = run.st.fired.iter().map(|(c, a, p)| format!("{c:?}{a:?}{}", base_name(p))).collect();
            o.sig = hash_bytes(run.st.files.len() as u64, format!("{sig:?}{}", run.res.as_ref().map(|r| r.is_ok()).unwrap_or(false)).as_bytes());
            o.trivial = run.st.fired.is_empty() && o.faults.is_empty();
            let text = format!("{:?}{sig:?}", run.res).replace(&*dir.to_string_lossy(), "D");
            o.note(text.as_bytes());
        } else {
            o.trivial = o.faults.is_empty();
            o.sig = hash_bytes(1, format!("{:?}", sc.files.iter().map(|f| &f.damage).collect::<Vec<_>>()).as_bytes());
        }
        o.note(format!("{bres:?}").replace(&*dir.to_string_lossy(), "D").as_bytes());
        if tree(&dir) != before {
            o.fail("modified", "loading changed the directory");
        }
        let _ = std::fs::remove_dir_all(&dir);
        o
    }
}

/// Whether what the loader was given of a file cannot be a schema document.
fn is_no_document(data: &[u8]) -> Option<&'static str> {
    // another declared encoding would be another story
    let head = String::from_utf8_lossy(&data[..data.len().min(200)]).to_ascii_lowercase();
    if data.starts_with(&[0xfe, 0xff]) || data.starts_with(&[0xff, 0xfe]) || data[..data.len().min(4)].contains(&0) || (head.contains("encoding") && !head.contains("utf-8")) {
        return None;
    }
    match std::str::from_utf8(data) {
        Err(_) => Some("is not UTF-8"),
        Ok(text) => simcore::xmltree::parse(text).is_err().then_some("is not well-formed"),
    }
}

/// Opened read-only, everything closed.
fn check_log(o: &mut Outcome, l: &Loaded, when: &str) {
    for f in &l.st.files {
        if f.flags & libc::O_ACCMODE != libc::O_RDONLY || f.flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
            o.fail("write_open", format!("{when}: {} opened with flags {:#x}", base_name(&f.path), f.flags));
        }
        if matches!(l.res, Ok(Ok(_))) && f.open_errno == 0 && f.eof {
            if let Some(why) = is_no_document(&f.data) {
                o.fail("accepted_damage", format!("{when}: the content of {} {why}, yet the schema loads", base_name(&f.path)));
            }
        }
        if !f.closed {
            o.fail("leak", format!("{when}: {} was left open", base_name(&f.path)));
        }
    }
}

/// The error of a failed load names the file and the cause, if a file could not be opened or read.
fn check_err(o: &mut Outcome, l: &Loaded, e: &str, excused: bool) {
    let mut causes: Vec<(String, i32)> = Vec::new();
    for f in &l.st.files {
        if f.open_errno != 0 {
            causes.push((base_name(&f.path), f.open_errno));
        }
        if f.read_errno != 0 {
            causes.push((base_name(&f.path), f.read_errno));
        }
    }
    // looking up a path may fail without consequence; then something else explains the error
    if causes.is_empty() && excused {
        return;
    }
    for (p, errno) in &l.st.realpaths {
        if *errno != 0 {
            causes.push((base_name(p), *errno));
        }
    }
    if causes.is_empty() {
        return;
    }
    o.probe("io_error_reported");
    let mut worst = "";
    for (f, errno) in &causes {
        match names(e, f, *errno) {
            None if l.codes.as_ref().is_none_or(|c| c.contains(errno)) => return,
            None => worst = "cause",
            Some(w) => worst = w,
        }
    }
    o.fail(
        if worst == "file" { "error_names_no_file" } else { "error_names_no_cause" },
        format!("failed calls {causes:?}, but the error says: {}", e.chars().take(400).collect::<String>()),
    );
}

fn judge(o: &mut Outcome, sc: &Sc, env: &Env, bres: &Result<String, String>, run: &Loaded, r: &Result<String, String>) {
    let tampered = run.st.files.iter().any(|f| f.tampered);
    let hard = run.st.fired.iter().any(|(c, a, _)| matches!(a, FsAct::Errno(_)) && *c != Call::Stat);
    if let Err(e) = r {
        if hard {
            check_err(o, run, e, tampered || bres.is_err());
        }
    }
    if tampered {
        // what the loader was given decides: load exactly that content from a healthy disk
        let mut seen: Vec<&[u8]> = Vec::new();
        for f in &run.st.files {
            if f.open_errno == 0 {
                if seen.contains(&f.path.as_slice()) {
                    return;
                }
                seen.push(&f.path);
            }
        }
        for f in &run.st.files {
            if f.tampered && f.eof && !String::from_utf8_lossy(&f.data).trim_end().ends_with("schema>") && r.is_ok() {
                o.fail("partial", format!("{} ended early after {} bytes, yet the schema loads", base_name(&f.path), f.data.len()));
            }
        }
        if hard {
            o.probe("tampered_and_hard");
            return;
        }
        let dir1 = env.scratch.join("c04");
        let dir2 = fresh_dir(&env.scratch.join("c04x"));
        lay_out(&dir2, &sc.files);
        for f in &run.st.files {
            if f.open_errno == 0 && f.eof {
                let p = String::from_utf8_lossy(&f.path).into_owned();
                if let Some(rel) = p.strip_prefix(&*dir1.to_string_lossy()) {
                    // normalise "a/../b"
                    let mut parts: Vec<&str> = Vec::new();
                    for c in rel.split('/') {
                        match c {
                            "" | "." => {}
                            ".." => {
                                parts.pop();
                            }
                            c => parts.push(c),
                        }
                    }
                    put(&dir2, &parts.join("/"), &f.data);
                }
            }
        }
        let want = load(&dir2.join(safe(&sc.files[0].path)), vec![], sc.hash_seed);
        let _ = std::fs::remove_dir_all(&dir2);
        match (&want.res, r) {
            (Ok(Ok(w)), Ok(g)) if w != g => o.fail("wrong_schema", "the schema is not the one the delivered bytes describe"),
            (Ok(Ok(_)), Err(e)) => o.fail("spurious_error", format!("the delivered bytes load, but: {e}")),
            (Ok(Err(_)), Ok(_)) => o.fail("accepted_damage", "the delivered bytes do not load, but loading succeeded"),
            _ => {
                o.probe("tampered_compared");
            }
        }
        return;
    }
    match (bres, r) {
        (Ok(w), Ok(g)) => {
            if w != g {
                o.fail("partial", "loading succeeded with a schema that differs from the one the complete files describe");
            } else {
                o.probe(if hard { "hard_fault_survived" } else { "equal_despite_faults" });
            }
        }
        (Ok(_), Err(e)) => {
            if !hard {
                o.fail("spurious_error", format!("only interruptions, short reads or size hints, but: {e}"));
            }
        }
        (Err(_), Ok(_)) => o.fail("accepted_damage", "the files do not load without faults, but did with them"),
        (Err(_), Err(_)) => {}
    }
}
