//! C11: relays that rewrite a document equivalently do not change its value.
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::xmltree::{self, plain, write, Style, XElem, XNode};

use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    target: Target,
    doc: XElem,
    hops: Vec<Hop>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hop {
    style: Style,
    /// Reorders the members of unordered groups.
    reorder: Option<u64>,
}

pub fn style(rng: &mut Rng) -> Style {
    let heavy = rng.pct(30);
    let p = |rng: &mut Rng, n: u32| rng.pct(if heavy { 80 } else { n });
    Style {
        seed: rng.next() >> 12,
        decl: rng.pct(60),
        spaces: p(rng, 40),
        comments: p(rng, 25),
        text_comments: p(rng, 20),
        pis: p(rng, 20),
        cdata: p(rng, 25),
        char_refs: p(rng, 25),
        single_quotes: rng.pct(30),
        ns_mode: rng.below(4) as u8,
        shuffle_attrs: p(rng, 40),
        expand_empty: p(rng, 30),
    }
}

fn reorder(e: &mut XElem, which: &[usize], rng: &mut Rng) {
    // the last ones first: positions of earlier elements stay as they are
    let mut which = which.to_vec();
    which.sort();
    fn go(e: &mut XElem, me: usize, which: &mut Vec<usize>, rng: &mut Rng) {
        let mut at = me + 1;
        let starts: Vec<usize> = e
            .kids
            .iter()
            .map(|k| {
                let start = at;
                if let XNode::E(c) = k {
                    at += c.count();
                }
                start
            })
            .collect();
        for (k, start) in e.kids.iter_mut().zip(starts).rev() {
            if let XNode::E(c) = k {
                if which.last().is_some_and(|n| *n >= start) {
                    go(c, start, which, rng);
                }
            }
        }
        if which.last() == Some(&me) {
            which.pop();
            let pos = e.elem_positions();
            let mut kids: Vec<XNode> = pos.iter().map(|i| e.kids[*i].clone()).collect();
            rng.shuffle(&mut kids);
            e.kids = kids;
        }
    }
    which.dedup();
    go(e, 0, &mut which, rng);
}

pub struct C11;

impl Prop for C11 {
    type Sc = Sc;
    const ID: &'static str = "C11";
    const RUNS: (u64, u64) = (800_000, 6_000_000);
    const RULE: &'static str = "one run = one conforming document that passes one to four relays, each re-serialising what it parsed in another layout; non-trivial: at least one relay changed the text; distinct: by type and final text";
    const REAL: &'static str = "generated decoders compiled from the current tree, xsd::decode, roxmltree (all unmodified)";
    const STUB: &'static str = "the relays (their own serialiser)";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let target = Target::pick(rng);
        let f = target.find().expect("target");
        let budget = rng.range(3, 50) as i64;
        let doc = f.gen(rng, budget);
        let hops = (0..rng.range(1, 4)).map(|_| Hop { style: style(rng), reorder: if rng.pct(50) { Some(rng.next() >> 12) } else { None } }).collect();
        Sc { target, doc, hops }
    }

    fn exec(sc: &Sc, _env: &Env) -> Outcome {
        let mut o = Outcome::default();
        o.trivial = true;
        let Some(f) = sc.target.find() else { return o };
        let Verdict::Valid(_) = f.judge(&sc.doc) else {
            o.probe("document_not_conforming");
            return o;
        };
        let first = write(&sc.doc, &plain());
        let v = match f.decode(&first) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => {
                o.fail("original_rejected", format!("{e}: {}", short(&first)));
                return o;
            }
            Err(p) => {
                o.fail("panic", p);
                return o;
            }
        };
        let mut text = first.clone();
        for (i, h) in sc.hops.iter().enumerate() {
            // the relay parses what it received and writes it in its own way
            let Ok(mut t) = xmltree::parse(&text) else {
                // cannot happen with the serialiser of the relays
                o.probe("relay_could_not_parse");
                return o;
            };
            // white space between elements is the relay's to change
            t = strip(&t);
            if let Some(s) = h.reorder {
                let which = unordered(&f.schema.model, f.gref, &t);
                if !which.is_empty() {
                    o.fault("members_reordered");
                    reorder(&mut t, &which, &mut Rng::new(s));
                }
            }
            let next = write(&t, &h.style);
            for (k, b) in [
                ("comments", h.style.comments),
                ("text_split_by_comments", h.style.text_comments),
                ("white_space", h.style.spaces),
                ("processing_instructions", h.style.pis),
                ("cdata", h.style.cdata),
                ("character_references", h.style.char_refs),
                ("quotes", h.style.single_quotes),
                ("attributes_reordered", h.style.shuffle_attrs),
                ("empty_expanded", h.style.expand_empty),
                ("other_prefixes", h.style.ns_mode != 1),
                ("declaration_dropped", !h.style.decl),
            ] {
                if b {
                    o.fault(k);
                }
            }
            o.steps += 1;
            if next != text {
                o.trivial = false;
            }
            text = next;
            match f.decode(&text) {
                Ok(Ok(w)) => {
                    if !v.same(&*w) {
                        o.fail("changed", format!("after relay {i}: {} instead of {}: {}", short(&w.show()), short(&v.show()), short(&text)));
                        return o;
                    }
                }
                Ok(Err(e)) => {
                    o.fail("rejected", format!("after relay {i}: {e}: {}", short(&text)));
                    return o;
                }
                Err(p) => {
                    o.fail("panic", p);
                    return o;
                }
            }
        }
        o.note(text.as_bytes());
        o.sig = hash_bytes(hash_bytes(11, sc.target.schema.as_bytes()), text.as_bytes());
        o
    }
}

/// Removes white space between elements.
fn strip(t: &XElem) -> XElem {
    let mut o = XElem { kids: vec![], ..t.clone() };
    let elems = t.has_elems();
    for k in &t.kids {
        match k {
            XNode::E(c) => o.kids.push(XNode::E(strip(c))),
            XNode::T(s) if elems && blank(s) => {}
            XNode::T(s) => o.kids.push(XNode::T(s.clone())),
        }
    }
    o
}
