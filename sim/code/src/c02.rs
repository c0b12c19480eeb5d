//! C02: an acknowledged document reads back as the value that was written.
use glue::Val;
use serde::{Deserialize, Serialize};
use simcore::model::Verdict;
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::xmltree::{plain, write, XElem};

use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    target: Target,
    docs: Vec<XElem>,
    ops: Vec<Op>,
    /// Also characters the XML writer does not escape (known findings; never generated).
    #[serde(default)]
    raw: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Writes document `doc` to `slot`.
    Put { slot: u8, doc: u8, how: How, plan: Vec<(u32, SinkAct)>, sync: Sync, crash_at: Option<u32>, after: After },
    /// Reads a slot and writes the decoded value to another one.
    Copy { from: u8, to: u8, how: How },
    Read { slot: u8 },
    Crash(After),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct How {
    /// Write to a temporary file and rename; otherwise overwrite in place.
    rename: bool,
    /// Stream with this configuration instead of using `to_xml`.
    cfg: Option<Cfg>,
    /// Bytes per disk write when `to_xml` is used.
    chunk: u16,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sync {
    Ok,
    /// fsync fails: not acknowledged.
    Fails,
    /// Never called.
    Skipped,
}
/// What the disk kept of data that was not synced.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct After {
    /// In 1/1000 of the data.
    prefix: u16,
    /// The file has its full length, the rest is zeros.
    zeros: bool,
    /// Nothing of the new data: the old file is still there.
    old: bool,
}

/// A document that was being written to a slot.
#[derive(Clone)]
struct Content {
    bytes: Vec<u8>,
    /// The complete document.
    full: Vec<u8>,
    doc: usize,
}
#[derive(Default)]
struct Slot {
    durable: Option<Content>,
    /// Contents in the page cache, if not the durable one.
    cached: Option<Content>,
    /// The last acknowledged document.
    acked: Option<usize>,
}

pub struct C02;

struct Store<'a> {
    f: &'a Found,
    vals: Vec<Box<dyn Val>>,
    wants: Vec<XElem>,
    slots: Vec<Slot>,
    tag: String,
}

fn cut(c: &Content, a: After) -> Content {
    let k = (c.bytes.len() * a.prefix.min(1000) as usize) / 1000;
    let mut b = c.bytes[..k].to_vec();
    if a.zeros {
        b.resize(c.bytes.len(), 0);
    }
    Content { bytes: b, full: c.full.clone(), doc: c.doc }
}

impl Store<'_> {
    fn crash(&mut self, a: After, o: &mut Outcome) {
        o.fault("crash");
        for s in &mut self.slots {
            if let Some(c) = s.cached.take() {
                if a.old {
                    o.fault("crash_lost_write");
                } else {
                    let kept = cut(&c, a);
                    o.fault(if kept.bytes == c.bytes {
                        "crash_kept_all"
                    } else if a.zeros {
                        "crash_zero_tail"
                    } else {
                        "crash_torn_write"
                    });
                    s.durable = Some(kept);
                }
            }
        }
    }
    /// Reads a slot; the decoded value if there is one.
    fn read(&self, i: usize, o: &mut Outcome, what: &str) -> Option<(Box<dyn Val>, usize)> {
        let s = &self.slots[i];
        let c = s.cached.as_ref().or(s.durable.as_ref())?;
        o.steps += 1;
        let complete = c.bytes == c.full;
        let text = match std::str::from_utf8(&c.bytes) {
            Ok(t) => t,
            Err(_) => {
                if complete {
                    o.fail("not_utf8", format!("{what}: the complete document is not UTF-8"));
                }
                return None;
            }
        };
        let r = match self.f.decode(text) {
            Ok(r) => r,
            Err(p) => {
                o.fail("panic", format!("{what}: {p}"));
                return None;
            }
        };
        o.note(&[r.is_ok() as u8, complete as u8]);
        match r {
            Ok(v) => {
                if !complete && c.bytes.iter().any(|b| *b == 0) {
                    o.probe("zeros_decoded");
                }
                if !v.same(&*self.vals[c.doc]) {
                    o.fail(
                        "different_value",
                        format!(
                            "{what}: slot {i} holds {} bytes of {} and decodes to {} instead of {}",
                            c.bytes.len(),
                            c.full.len(),
                            short(&v.show()),
                            short(&self.vals[c.doc].show())
                        ),
                    );
                    return None;
                }
                o.probe(if complete { "read_complete" } else { "read_partial_complete" });
                Some((v, c.doc))
            }
            Err(e) => {
                if complete {
                    o.fail("lost", format!("{what}: slot {i} holds the complete document {:?} but reading fails: {e}", short(text)));
                } else {
                    o.probe("partial_rejected");
                }
                None
            }
        }
    }
    /// Every acknowledged document that nothing has overwritten since is still there.
    fn audit(&self, o: &mut Outcome, what: &str) {
        for i in 0..self.slots.len() {
            if o.violation.is_some() {
                return;
            }
            let got = self.read(i, o, what);
            if o.violation.is_some() {
                return;
            }
            let s = &self.slots[i];
            if let Some(a) = s.acked {
                match got {
                    Some((v, _)) if v.same(&*self.vals[a]) => {}
                    _ => {
                        o.fail("acked_lost", format!("{what}: slot {i} was acknowledged and does not read back"));
                        return;
                    }
                }
            }
        }
    }
    fn encode(&self, v: &dyn Val, how: How, plan: &[(u32, SinkAct)], sink: &mut Sink, o: &mut Outcome) -> Option<Result<(), String>> {
        sink.plan = plan.to_vec();
        match how.cfg {
            Some(cfg) => match stream(v, &self.tag, cfg, sink) {
                Ok(Some(r)) => Some(r.map_err(|e| e.to_string())),
                Ok(None) => None,
                Err(p) => {
                    if p == "sink panic" {
                        return Some(Err(p));
                    }
                    o.fail("panic", p);
                    None
                }
            },
            None => {
                use std::io::Write;
                let b = match to_xml(v) {
                    Ok(Ok(b)) => b,
                    Ok(Err(e)) => {
                        o.fail("encode_error", e.to_string());
                        return None;
                    }
                    Err(p) => {
                        o.fail("panic", p);
                        return None;
                    }
                };
                for c in b.chunks(how.chunk.max(1) as usize) {
                    if let Err(e) = sink.write_all(c) {
                        return Some(Err(e.to_string()));
                    }
                }
                Some(Ok(()))
            }
        }
    }
    /// The complete document, as written to a healthy sink; checked against what it is made from.
    fn full(&self, v: &dyn Val, doc: usize, how: How, o: &mut Outcome) -> Option<Vec<u8>> {
        let mut s = Sink::new(&[]);
        match self.encode(v, how, &[], &mut s, o)? {
            Ok(()) => {}
            Err(e) => {
                o.fail("encode_error", e);
                return None;
            }
        }
        match parse_bytes(&s.got) {
            Err(e) => {
                o.fail("not_well_formed", format!("{e}: {}", short(&String::from_utf8_lossy(&s.got))));
                None
            }
            Ok(t) => {
                if !same_tree(&self.wants[doc], &t) {
                    o.fail("wrong_document", format!("{} in {}", diff(&self.wants[doc], &t), short(&String::from_utf8_lossy(&s.got))));
                    return None;
                }
                Some(s.got)
            }
        }
    }
    /// Puts `bytes` into the page cache of a slot.
    fn place(&mut self, slot: usize, rename: bool, c: Content, complete: bool) {
        if rename {
            // only a complete temporary file is renamed over the slot
            if complete {
                self.slots[slot].cached = Some(c);
            }
        } else {
            self.slots[slot].cached = Some(c);
            self.slots[slot].acked = None; // overwritten in place
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn put(&mut self, slot: usize, doc: usize, v: &dyn Val, how: How, plan: &[(u32, SinkAct)], sync: Sync, crash_at: Option<u32>, after: After, o: &mut Outcome) {
        let Some(full) = self.full(v, doc, how, o) else { return };
        let mut plan = plan.to_vec();
        if let Some(n) = crash_at {
            plan.retain(|p| p.0 != n);
            plan.push((n, SinkAct::Os(5)));
        }
        let mut s = Sink::new(&[]);
        let Some(r) = self.encode(v, how, &plan, &mut s, o) else { return };
        o.steps += s.calls as u64;
        for k in &s.fired {
            o.fault(k);
        }
        if !full.starts_with(&s.got) {
            o.fail("not_a_prefix", "what reached the disk is no prefix of the document");
            return;
        }
        let ok = r.is_ok();
        if ok && s.got != full {
            o.fail("short_but_ok", format!("success with {} of {} bytes", s.got.len(), full.len()));
            return;
        }
        let crashed = crash_at.is_some() && s.fatal.is_some();
        self.place(slot, how.rename, Content { bytes: s.got, full, doc }, ok && sync == Sync::Ok);
        if crashed {
            o.probe("crash_inside_write");
            self.crash(after, o);
            return;
        }
        if ok {
            match sync {
                Sync::Ok => {
                    let sl = &mut self.slots[slot];
                    if let Some(c) = sl.cached.take() {
                        sl.durable = Some(c);
                    }
                    sl.acked = Some(doc);
                    o.probe("acknowledged");
                }
                Sync::Fails => o.fault("fsync_error"),
                Sync::Skipped => {}
            }
        }
    }
}

fn how(rng: &mut Rng) -> How {
    How { rename: rng.pct(40), cfg: if rng.pct(50) { Some(Cfg::pick(rng)) } else { None }, chunk: rng.range(1, 300) as u16 }
}
fn after(rng: &mut Rng) -> After {
    After {
        prefix: match rng.below(6) {
            0 => 1000,
            1 => rng.range(960, 1000) as u16,
            2 => 0,
            _ => rng.below(1000) as u16,
        },
        zeros: rng.pct(30),
        old: rng.pct(15),
    }
}

impl Prop for C02 {
    type Sc = Sc;
    const ID: &'static str = "C02";
    const RUNS: (u64, u64) = (600_000, 5_000_000);
    const RULE: &'static str = "one run = one history of writes, copies, reads and crashes over up to three slots of a simulated disk, with documents of one generated type; non-trivial: at least one document was acknowledged or cut by a fault; distinct: by type, documents and history";
    const REAL: &'static str = "generated encoders and decoders compiled from the current tree, xsd::{Context, decode}, xml-rs, roxmltree (all unmodified)";
    const STUB: &'static str = "disk (page cache, fsync, rename, crash) and the storage client";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let target = Target::pick(rng);
        let f = target.find().expect("target");
        let nd = rng.range(1, 3);
        let docs: Vec<XElem> = (0..nd)
            .map(|_| {
                let b = rng.range(3, 60) as i64;
                f.gen(rng, b)
            })
            .collect();
        let mut ops = Vec::new();
        for _ in 0..rng.range(1, 6) {
            let slot = rng.below(3) as u8;
            ops.push(match rng.below(10) {
                0..=5 => {
                    let d = rng.below(nd);
                    let size = docs[d].count() * 7 + 10;
                    let mut plan = vec![];
                    for _ in 0..rng.below(4) {
                        plan.push((rng.below(size) as u32, SinkAct::harmless(rng)));
                    }
                    if rng.pct(10) {
                        plan.push((rng.below(size) as u32, SinkAct::fatal(rng)));
                    }
                    plan.sort_by_key(|p| p.0);
                    plan.dedup_by_key(|p| p.0);
                    Op::Put {
                        slot,
                        doc: d as u8,
                        how: how(rng),
                        plan,
                        sync: match rng.below(10) {
                            0 => Sync::Fails,
                            1 => Sync::Skipped,
                            _ => Sync::Ok,
                        },
                        crash_at: if rng.pct(20) { Some(rng.below(size) as u32) } else { None },
                        after: after(rng),
                    }
                }
                6..=7 => Op::Copy { from: slot, to: rng.below(3) as u8, how: how(rng) },
                8 => Op::Read { slot },
                _ => Op::Crash(after(rng)),
            });
        }
        Sc { target, docs, ops, raw: false }
    }

    fn exec(sc: &Sc, _env: &Env) -> Outcome {
        let mut o = Outcome::default();
        o.trivial = true;
        let Some(f) = sc.target.find() else { return o };
        o.sig = hash_bytes(2, serde_json::to_string(sc).unwrap().as_bytes());
        let mut st = Store { f: &f, vals: vec![], wants: vec![], slots: (0..3).map(|_| Slot::default()).collect(), tag: String::new() };
        for d in &sc.docs {
            let Verdict::Valid(want) = f.judge(d) else {
                o.probe("document_not_conforming");
                return o;
            };
            if unwritable(&want) && !sc.raw {
                o.probe("text_the_writer_does_not_escape");
                return o;
            }
            let text = write(d, &plain());
            match f.decode(&text) {
                Ok(Ok(v)) => {
                    st.vals.push(v);
                    st.wants.push(want);
                }
                Ok(Err(e)) => {
                    o.fail("conforming_rejected", format!("{e}: {}", short(&text)));
                    return o;
                }
                Err(p) => {
                    o.fail("panic", p);
                    return o;
                }
            }
        }
        let Some(v0) = st.vals.first() else { return o };
        match to_xml(&**v0) {
            Ok(Ok(b)) => match std::str::from_utf8(&b).ok().and_then(root_tag) {
                Some(t) => st.tag = t,
                None => {
                    o.fail("not_well_formed", "to_xml wrote no document");
                    return o;
                }
            },
            Ok(Err(e)) => {
                o.fail("encode_error", e.to_string());
                return o;
            }
            Err(p) => {
                o.fail("panic", p);
                return o;
            }
        }
        for (i, op) in sc.ops.iter().enumerate() {
            let what = format!("after step {i}");
            match op {
                Op::Put { slot, doc, how, plan, sync, crash_at, after } => {
                    if st.vals.is_empty() {
                        continue;
                    }
                    let d = *doc as usize % st.vals.len();
                    let v = st.vals[d].dup();
                    st.put(*slot as usize % 3, d, &*v, *how, plan, *sync, *crash_at, *after, &mut o);
                    o.trivial = false;
                }
                Op::Copy { from, to, how } => {
                    if let Some((v, d)) = st.read(*from as usize % 3, &mut o, &what) {
                        st.put(*to as usize % 3, d, &*v, *how, &[], Sync::Ok, None, After { prefix: 1000, zeros: false, old: false }, &mut o);
                        o.probe("copied");
                    }
                }
                Op::Read { slot } => {
                    st.read(*slot as usize % 3, &mut o, &what);
                }
                Op::Crash(a) => st.crash(*a, &mut o),
            }
            if o.violation.is_some() {
                return o;
            }
            st.audit(&mut o, &what);
            if o.violation.is_some() {
                return o;
            }
        }
        st.crash(After { prefix: 0, zeros: false, old: true }, &mut o);
        st.audit(&mut o, "after the last restart");
        o
    }
}
