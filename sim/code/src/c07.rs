//! C07: interleaved readers of one element see each child exactly once.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde::{Deserialize, Serialize};
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::sys;
use simcore::xmltree::{self, write, Style, XAttr, XElem, XNode};
use xsd::decode::{decode, FromXmlError, Node};

use crate::common::short;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    doc: XElem,
    style: Style,
    /// (reader, call): the schedule.
    calls: Vec<(u8, Call)>,
}

/// `on`: which of the elements known so far (0 is the root element). Names are numbers into NAMES.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Peek { on: u16, name: u8, ns: u8 },
    Next { on: u16, name: u8, ns: u8, must: bool },
    Child { on: u16, name: u8, ns: u8, must: bool },
    /// What the reader most likely wants: the name of the nth child not taken yet.
    NextNth { on: u16, nth: u16, must: bool },
    ChildNth { on: u16, nth: u16, must: bool },
    PeekNth { on: u16, nth: u16 },
    Attr { on: u16, name: u8, must: bool },
    Text { on: u16 },
    Root { name: u8, ns: u8, must: bool },
}

const NAMES: &[&str] = &["a", "b", "c", "A", "item"];
const URIS: &[Option<&str>] = &[None, Some("urn:one"), Some("urn:two")];

/// The reference: which children of an element are still there.
struct Ref {
    /// Identity of the element: number in document order.
    id: usize,
    left: Vec<usize>,
}

struct Elem<'a> {
    e: &'a XElem,
    kids: Vec<usize>,
}
fn flatten<'a>(e: &'a XElem, out: &mut Vec<Elem<'a>>) -> usize {
    let me = out.len();
    out.push(Elem { e, kids: vec![] });
    for k in e.elems() {
        let i = flatten(k, out);
        out[me].kids.push(i);
    }
    me
}

/// Elements taken by readers. A child borrows from its parent, so they are freed in reverse order.
struct Handles {
    v: Vec<*mut Node<'static>>,
}
impl Handles {
    fn add(&mut self, n: Node<'_>) {
        let b: *mut Node<'_> = Box::into_raw(Box::new(n));
        self.v.push(b as *mut Node<'static>);
    }
    fn get(&self, i: usize) -> &'static Node<'static> {
        unsafe { &*self.v[i] }
    }
}
impl Drop for Handles {
    fn drop(&mut self) {
        while let Some(p) = self.v.pop() {
            unsafe { drop(Box::from_raw(p)) }
        }
    }
}

fn gen_elem(rng: &mut Rng, depth: usize, budget: &mut i32, names: usize) -> XElem {
    let wide = *budget > 60;
    *budget -= 1;
    let ns = if rng.pct(70) { None } else { rng.pick(URIS).map(String::from) };
    let mut e = XElem::new(ns, NAMES[rng.below(names)]);
    for _ in 0..rng.below(3) {
        let a = XAttr { ns: if rng.pct(20) { Some("urn:two".into()) } else { None }, name: rng.pick(NAMES).to_string(), val: format!("v{}", rng.below(100)) };
        if !e.attrs.iter().any(|b| b.name == a.name && b.ns == a.ns) {
            e.attrs.push(a);
        }
    }
    if depth < 4 && *budget > 0 && rng.pct(if depth == 0 { 97 } else { 55 }) {
        for _ in 0..rng.range(1, if wide && depth == 0 { 150 } else if depth == 0 || wide { 9 } else { 4 }) {
            e.kids.push(XNode::E(gen_elem(rng, depth + 1, budget, names)));
        }
    } else if rng.pct(60) {
        e.kids.push(XNode::T(format!("t{}<&>{}", rng.below(100), rng.below(10))));
    }
    e
}

pub struct C07;

impl Prop for C07 {
    type Sc = Sc;
    const ID: &'static str = "C07";
    const RUNS: (u64, u64) = (1_000_000, 20_000_000);
    const RULE: &'static str = "one run = one document and one interleaving of the calls of up to four readers sharing its elements, compared call by call with a list model; non-trivial: at least one child was taken and one request failed or skipped a child; distinct: by document and call sequence";
    const REAL: &'static str = "xsd::decode (unmodified), roxmltree";
    const STUB: &'static str = "the readers (the scheduler decides who calls what next)";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let wide = rng.below(150) == 0;
        let mut budget = if wide { rng.range(61, 300) as i32 } else { rng.range(3, 40) as i32 };
        let names = rng.range(2, NAMES.len());
        let mut doc = gen_elem(rng, 0, &mut budget, names);
        // long rows of the same child, so that requests have to pass over hundreds
        let vast = wide && rng.pct(15);
        if vast {
            doc.kids.clear();
            for _ in 0..rng.range(2, 5) {
                let name = NAMES[rng.below(names)];
                for _ in 0..rng.range(50, 450) {
                    doc.kids.push(XNode::E(XElem::new(None, name)));
                }
            }
        }
        let mut known = 1u16;
        let mut calls = vec![];
        let readers = rng.range(1, 4);
        let by_name_only = rng.pct(15);
        // half of the runs stay on few elements, so that long sequences hit the same one
        let focus = rng.pct(50);
        for _ in 0..if wide { rng.range(40, 300) } else { rng.range(3, 45) } {
            let on = if focus && rng.pct(80) { 0 } else { rng.below(known as usize) as u16 };
            let name = rng.below(names) as u8;
            let ns = if rng.pct(80) { 0 } else { rng.below(URIS.len()) as u8 };
            let nth = if rng.pct(50) { 0 } else { rng.below(if vast { 1500 } else if wide { 120 } else { 8 }) as u16 };
            let must = rng.pct(50);
            let c = match rng.below(20) {
                0..=2 => Call::Peek { on, name, ns },
                3..=5 => Call::Next { on, name, ns, must },
                6..=8 => Call::Child { on, name, ns, must },
                9..=11 => Call::NextNth { on, nth: if rng.pct(75) { 0 } else { nth }, must },
                12..=14 => Call::ChildNth { on, nth, must },
                15 => Call::PeekNth { on, nth },
                16 => Call::Attr { on, name, must },
                17..=18 => Call::Text { on },
                _ => Call::Root { name, ns, must },
            };
            let c = if by_name_only {
                match c {
                    Call::Next { on, name, ns, must } => Call::Child { on, name, ns, must },
                    Call::NextNth { on, nth, must } => Call::ChildNth { on, nth, must },
                    c => c,
                }
            } else {
                c
            };
            if !matches!(c, Call::Peek { .. } | Call::Attr { .. } | Call::Text { .. } | Call::PeekNth { .. }) {
                known = (known + 1).min(60);
            }
            calls.push((rng.below(readers) as u8, c));
        }
        let mut style = crate::c11::style(rng);
        style.shuffle_attrs = false;
        Sc { doc, style, calls }
    }

    fn exec(sc: &Sc, _env: &Env) -> Outcome {
        let mut o = Outcome::default();
        o.trivial = true;
        let text = write(&sc.doc, &sc.style);
        let Ok(tree) = xmltree::parse(&text) else { return o };
        let mut elems = vec![];
        flatten(&tree, &mut elems);
        // identity of elements: where they start in the text
        let ranges: Vec<std::ops::Range<usize>> = {
            let d = roxmltree::Document::parse(&text).expect("parsed before");
            d.root_element().descendants().filter(|n| n.is_element()).map(|n| n.range()).collect()
        };
        let r = catch_unwind(AssertUnwindSafe(|| run(sc, &text, &elems, &ranges, &mut o)));
        if let Err(p) = r {
            o.fail("panic", sys::panic_text(p));
        }
        o.sig = hash_bytes(7, format!("{text}{:?}", sc.calls).as_bytes());
        o
    }
}

fn run(sc: &Sc, text: &str, elems: &[Elem], ranges: &[std::ops::Range<usize>], o: &mut Outcome) {
    let doc = match decode(text) {
        Ok(d) => d,
        Err(e) => {
            o.fail("rejected", format!("{e}: {}", short(text)));
            return;
        }
    };
    let mut h = Handles { v: vec![] };
    let mut model: Vec<Ref> = Vec::new();
    let mut handed: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let new_ref = |id: usize| Ref { id, left: elems[id].kids.clone() };
    // everybody starts from the root element
    let root = &elems[0].e;
    match doc.child(&root.name, root.ns.as_deref()) {
        Some(n) => {
            h.add(n);
            model.push(new_ref(0));
        }
        None => {
            o.fail("root_not_found", "the root element is not found under its name");
            return;
        }
    }
    let (mut took, mut odd) = (false, false);
    for (i, (_, c)) in sc.calls.iter().enumerate() {
        o.steps += 1;
        let on = |x: u16| x as usize % h.v.len();
        let matches = |id: usize, name: &str, ns: Option<&str>| elems[id].e.name == name && elems[id].e.ns.as_deref() == ns;
        // resolve names
        #[derive(Clone, Copy, PartialEq, Debug)]
        enum K {
            Peek,
            Next,
            Child,
        }
        let names = |n: u8, ns: u8| (NAMES[n as usize % NAMES.len()].to_string(), URIS[ns as usize % URIS.len()].map(String::from));
        let nth = |on: usize, k: u16| {
            let m = &model[on];
            if m.left.is_empty() {
                (NAMES[0].to_string(), None)
            } else {
                let e = elems[m.left[k as usize % m.left.len()]].e;
                (e.name.clone(), e.ns.clone())
            }
        };
        let (k, w, (name, ns), must) = match c {
            Call::Peek { on: x, name, ns } => (K::Peek, on(*x), names(*name, *ns), false),
            Call::Next { on: x, name, ns, must } => (K::Next, on(*x), names(*name, *ns), *must),
            Call::Child { on: x, name, ns, must } => (K::Child, on(*x), names(*name, *ns), *must),
            Call::NextNth { on: x, nth: n, must } => (K::Next, on(*x), nth(on(*x), *n), *must),
            Call::ChildNth { on: x, nth: n, must } => (K::Child, on(*x), nth(on(*x), *n), *must),
            Call::PeekNth { on: x, nth: n } => (K::Peek, on(*x), nth(on(*x), *n), false),
            Call::Attr { on: x, name, must } => {
                let w = on(*x);
                let name = NAMES[*name as usize % NAMES.len()];
                let want = elems[model[w].id].e.attrs.iter().find(|a| a.ns.is_none() && a.name == name).map(|a| a.val.as_str());
                let node = h.get(w);
                let got = if *must {
                    match node.try_attribute(name) {
                        Ok(v) => Some(v),
                        Err(FromXmlError::MissingAttribute { name: n }) if n == name => None,
                        Err(e) => {
                            o.fail("wrong_error", format!("call {i} {c:?}: {e}"));
                            return;
                        }
                    }
                } else {
                    node.attribute(name)
                };
                if got != want {
                    o.fail("attribute", format!("call {i} {c:?}: {got:?} instead of {want:?}"));
                    return;
                }
                continue;
            }
            Call::Text { on: x } => {
                let w = on(*x);
                let e = elems[model[w].id].e;
                let got = h.get(w).text().map(String::from);
                if !e.has_elems() {
                    if got.as_deref().ok() != Some(e.text().as_str()) {
                        o.fail("text", format!("call {i}: {got:?} instead of {:?}", e.text()));
                        return;
                    }
                }
                o.note(format!("{:?}", got.is_ok()).as_bytes());
                continue;
            }
            Call::Root { name, ns, must } => {
                let (name, ns) = names(*name, *ns);
                let want = matches(0, &name, ns.as_deref());
                let got = if *must {
                    match doc.try_child(&name, ns.as_deref()) {
                        Ok(n) => Some(n),
                        Err(FromXmlError::MissingElement { name: n, namespace }) if n == name && namespace == ns => None,
                        Err(e) => {
                            o.fail("wrong_error", format!("call {i} {c:?}: {e}"));
                            return;
                        }
                    }
                } else {
                    doc.child(&name, ns.as_deref())
                };
                if got.is_some() != want {
                    o.fail("root", format!("call {i}: root {name} {ns:?} found: {}", got.is_some()));
                    return;
                }
                // a new, independent reading of the same element
                if let Some(n) = got {
                    if h.v.len() < 60 {
                        h.add(n);
                        model.push(new_ref(0));
                    }
                }
                continue;
            }
        };
        let node = h.get(w);
        let first = model[w].left.first().copied();
        let first_ok = first.map(|f| matches(f, &name, ns.as_deref())).unwrap_or(false);
        match k {
            K::Peek => {
                let got = node.peek_child(&name, ns.as_deref());
                if got != first_ok {
                    o.fail("peek", format!("call {i}: peeking {name} {ns:?} gives {got}, the first child not taken is {:?}", first.map(|f| &elems[f].e.name)));
                    return;
                }
            }
            K::Next | K::Child => {
                let want: Option<usize> = match k {
                    K::Next => first_ok.then_some(0),
                    _ => model[w].left.iter().position(|f| matches(*f, &name, ns.as_deref())),
                };
                let got = match (k, must) {
                    (K::Next, false) => Ok(node.next_child(&name, ns.as_deref())),
                    (K::Next, true) => node.try_next_child(&name, ns.as_deref()).map(Some),
                    (_, false) => Ok(node.child(&name, ns.as_deref())),
                    (_, true) => node.try_child(&name, ns.as_deref()).map(Some),
                };
                let got = match got {
                    Ok(g) => g,
                    Err(FromXmlError::MissingElement { name: n, namespace }) if n == name && namespace == ns => None,
                    Err(e) => {
                        o.fail("wrong_error", format!("call {i} {c:?}: {e}"));
                        return;
                    }
                };
                match (want, got) {
                    (None, None) => odd = true,
                    (Some(p), Some(n)) => {
                        took = true;
                        if p > 0 {
                            odd = true;
                            o.probe("taken_over_others");
                        }
                        let id = model[w].left.remove(p);
                        if n.range() != ranges[id] {
                            o.fail("wrong_child", format!("call {i}: {name} at {:?} instead of {:?}", n.range(), ranges[id]));
                            return;
                        }
                        let times = handed.entry((w, id)).or_default();
                        *times += 1;
                        if h.v.len() < 60 {
                            h.add(n);
                            model.push(new_ref(id));
                        }
                    }
                    (want, got) => {
                        o.fail(
                            "taking",
                            format!(
                                "call {i}: {k:?} {name} {ns:?} {} although {}",
                                if got.is_some() { "succeeds" } else { "fails" },
                                match want {
                                    Some(_) => "it is there",
                                    None => "it is not its turn or not there",
                                }
                            ),
                        );
                        return;
                    }
                }
            }
        }
    }
    // nothing is lost: whatever is left can still be taken, in order, by anybody
    for w in (0..h.v.len()).rev() {
        while let Some(id) = model[w].left.first().copied() {
            let e = elems[id].e;
            let ok = match h.get(w).next_child(&e.name, e.ns.as_deref()) {
                Some(n) => n.range() == ranges[id],
                None => false,
            };
            if !ok {
                o.fail("lost", format!("at the end: {} at {:?} cannot be taken any more", e.name, ranges[id]));
                return;
            }
            model[w].left.remove(0);
        }
        for n in NAMES {
            for u in URIS {
                if h.get(w).peek_child(n, *u) || h.get(w).next_child(n, *u).is_some() || h.get(w).child(n, *u).is_some() {
                    o.fail("twice", format!("at the end: {n} {u:?} is handed out although all children are taken"));
                    return;
                }
            }
        }
    }
    o.note(format!("{took}{odd}{}", h.v.len()).as_bytes());
    o.trivial = !(took && odd);
}
