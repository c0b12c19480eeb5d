//! C01: serialising into any sink is complete or reports an error.
use serde::{Deserialize, Serialize};
use simcore::model::Verdict;
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::xmltree::{plain, write, XElem};

use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    target: Target,
    doc: XElem,
    /// One attempt per entry, each with its own configuration and fault plan.
    attempts: Vec<(Cfg, Vec<(u32, SinkAct)>)>,
}

pub struct C01;

impl Prop for C01 {
    type Sc = Sc;
    const ID: &'static str = "C01";
    const RUNS: (u64, u64) = (600_000, 6_000_000);
    const RULE: &'static str = "one run = one value of one generated type, serialised several times into sinks that follow fault plans; non-trivial: at least one sink fault fired while writing; distinct: by type, document and fault plans";
    const REAL: &'static str = "generated encoders compiled from the current tree, xsd::Context, xml-rs writer (all unmodified)";
    const STUB: &'static str = "the byte sink (simulated: short, interrupted, zero, torn and failing writes)";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let target = Target::pick(rng);
        let f = target.find().expect("target");
        let budget = rng.range(5, 60) as i64;
        let doc = f.gen(rng, budget);
        let size = doc.count() as u32 * 6 + 12;
        let n = rng.range(1, 3);
        let attempts = (0..n)
            .map(|_| {
                let mut plan: Vec<(u32, SinkAct)> = Vec::new();
                if rng.pct(70) {
                    let every = rng.pct(15);
                    let k = if every { size } else { rng.range(1, 8) as u32 };
                    for i in 0..k {
                        let at = if every { i * 2 } else { rng.below(size as usize) as u32 };
                        plan.push((at, SinkAct::harmless(rng)));
                    }
                }
                if rng.pct(65) {
                    let at = match rng.below(6) {
                        0 => rng.below(4),
                        1 => (size as usize).saturating_sub(rng.below(size as usize / 3 + 2)),
                        _ => rng.below(size as usize),
                    };
                    plan.retain(|p| p.0 != at as u32);
                    plan.push((at as u32, SinkAct::fatal(rng)));
                    if rng.pct(15) {
                        plan.push((at as u32 + 1 + rng.below(6) as u32, SinkAct::fatal(rng)));
                    }
                }
                plan.sort_by_key(|p| p.0);
                (Cfg::pick(rng), plan)
            })
            .collect();
        Sc { target, doc, attempts }
    }

    fn exec(sc: &Sc, _env: &Env) -> Outcome {
        let mut o = Outcome::default();
        o.trivial = true;
        let Some(f) = sc.target.find() else { return o };
        let Verdict::Valid(want) = f.judge(&sc.doc) else {
            o.probe("document_not_conforming");
            return o;
        };
        let text = write(&sc.doc, &plain());
        // Whether conforming documents decode is C02's and C03's business.
        let Ok(Ok(v)) = f.decode(&text) else {
            o.probe("not_decoded");
            return o;
        };
        let show = v.show();
        let xml = match to_xml(&*v) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => {
                o.fail("error_without_fault", format!("to_xml failed: {e}"));
                return o;
            }
            Err(p) => {
                o.fail("panic", p);
                return o;
            }
        };
        let tag = match std::str::from_utf8(&xml).ok().and_then(root_tag) {
            Some(t) => t,
            None => {
                o.fail("incomplete", "to_xml reported success but wrote no document");
                return o;
            }
        };
        o.sig = hash_bytes(1, format!("{}{}{:?}{:?}", sc.target.schema, sc.target.root, text, sc.attempts).as_bytes());
        let complete = |b: &[u8]| -> Option<String> {
            match parse_bytes(b) {
                Err(e) => Some(format!("is not a document: {e}")),
                Ok(t) if !unwritable(&want) && canon(&t).count() != canon(&want).count() => Some(diff(&want, &t)),
                Ok(_) => None,
            }
        };
        if let Some(d) = complete(&xml) {
            o.fail("incomplete", format!("to_xml reported success but its output {d}"));
            return o;
        }
        for (i, (cfg, plan)) in sc.attempts.iter().enumerate() {
            // what a healthy sink receives
            let mut healthy = Sink::new(&[]);
            match stream(&*v, &tag, *cfg, &mut healthy) {
                Ok(None) => {
                    o.probe("streaming_not_built");
                    return o;
                }
                Ok(Some(Ok(()))) => {}
                Ok(Some(Err(e))) => {
                    o.fail("error_without_fault", format!("a healthy sink got {e}"));
                    return o;
                }
                Err(p) => {
                    o.fail("panic", p);
                    return o;
                }
            }
            let reference = healthy.got;
            if *cfg == Cfg::default_writer() && reference != xml {
                o.fail("differs", "streaming with the emitter configuration of to_xml differs from to_xml");
                return o;
            }
            if let Some(d) = complete(&reference) {
                o.fail("incomplete", format!("a healthy sink was told success but its content {d}"));
                return o;
            }
            let mut s = Sink::new(plan);
            let r = stream(&*v, &tag, *cfg, &mut s);
            o.steps += s.calls as u64;
            for k in &s.fired {
                o.fault(k);
            }
            if !s.fired.is_empty() {
                o.trivial = false;
            }
            o.note(&s.got);
            o.note(&[matches!(r, Ok(Some(Ok(())))) as u8, s.calls as u8]);
            if !reference.starts_with(&s.got) {
                let k = reference.iter().zip(&s.got).take_while(|(a, b)| a == b).count();
                o.fail(
                    "not_a_prefix",
                    format!("attempt {i}: the sink holds {} bytes that leave the document at byte {k}: {:?}", s.got.len(), short(&String::from_utf8_lossy(&s.got[k.saturating_sub(10)..]))),
                );
                return o;
            }
            match (r, &s.fatal) {
                (Err(p), _) => {
                    o.fail("panic", p);
                    return o;
                }
                (Ok(None), _) => return o,
                (Ok(Some(Ok(()))), Some((n, e))) => {
                    // the failed write concerns data of the document; losing it must be reported
                    o.fail("error_swallowed", format!("attempt {i}: success although the sink failed with {e:?} after {n} bytes (of {})", reference.len()));
                    return o;
                }
                (Ok(Some(Ok(()))), None) => {
                    if s.got != reference {
                        o.fail("incomplete", format!("attempt {i}: success with {} of {} bytes", s.got.len(), reference.len()));
                        return o;
                    }
                }
                (Ok(Some(Err(e))), None) => {
                    // a torn write whose failing second half was never reached leaves nothing to report
                    o.fail("error_without_fault", format!("attempt {i}: {e} although the sink accepted everything"));
                    return o;
                }
                (Ok(Some(Err(e))), Some((_, fault))) => {
                    o.probe("reported");
                    if !is_that_error(&e, fault) {
                        o.fail("other_error", format!("attempt {i}: the sink failed with {fault:?}, reported was {e}"));
                        return o;
                    }
                }
            }
            // the value is still usable
            let mut again = Sink::new(&[]);
            match stream(&*v, &tag, *cfg, &mut again) {
                Ok(Some(Ok(()))) if again.got == reference => {}
                _ => {
                    o.fail("unusable", format!("attempt {i}: after it, a healthy sink does not get the same document"));
                    return o;
                }
            }
        }
        match to_xml(&*v) {
            Ok(Ok(x)) if x == xml => {}
            _ => o.fail("unusable", "to_xml gives another result after the attempts"),
        }
        if v.show() != show {
            o.fail("unusable", "the value changed");
        }
        o
    }
}
