//! C03: damaged documents are rejected or read for what they say.
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::xmltree::{self, plain, write, Style, XAttr, XElem, XNode};

use crate::common::*;

#[derive(Serialize, Deserialize)]
pub struct Sc {
    target: Target,
    doc: XElem,
    /// Damage to the element tree, in order; then laid out as XML; then damage to the bytes.
    tree: Vec<Tree>,
    style: Style,
    bytes: Vec<Byte>,
    /// Also judge what is listed as a known finding (never generated).
    #[serde(default)]
    raw: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tree {
    Drop(u16),
    Dup(u16),
    SwapNext(u16),
    Rename(u16, String),
    Namespace(u16, Option<String>),
    Text(u16, String),
    DropText(u16),
    DropAttr(u16, u8),
    SetAttr(u16, u8, String),
    RenameAttr(u16, u8, String),
    AddAttr(u16, Option<String>, String, String),
    /// Moves an element to the end of its siblings.
    Last(u16),
    /// Inserts a copy of one element as first child of another.
    Graft(u16, u16),
    Insert(u16, String),
    Clear(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Byte {
    Flip(u32, u8),
    Set(u32, u8),
    Cut(u32),
    Remove(u32, u32),
    Repeat(u32, u32),
    Zero(u32, u32),
    Insert(u32, String),
}

impl Tree {
    fn name(&self) -> &'static str {
        match self {
            Tree::Drop(_) => "element_lost",
            Tree::Dup(_) => "element_duplicated",
            Tree::SwapNext(_) | Tree::Last(_) => "elements_reordered",
            Tree::Rename(..) => "element_renamed",
            Tree::Namespace(..) => "namespace_changed",
            Tree::Text(..) | Tree::DropText(_) => "text_altered",
            Tree::DropAttr(..) => "attribute_lost",
            Tree::SetAttr(..) => "attribute_altered",
            Tree::RenameAttr(..) => "attribute_renamed",
            Tree::AddAttr(..) => "attribute_added",
            Tree::Graft(..) | Tree::Insert(..) => "element_inserted",
            Tree::Clear(_) => "content_lost",
        }
    }
}
impl Byte {
    fn name(&self) -> &'static str {
        match self {
            Byte::Flip(..) | Byte::Set(..) => "byte_flipped",
            Byte::Cut(_) => "cut_short",
            Byte::Remove(..) => "bytes_lost",
            Byte::Repeat(..) => "bytes_repeated",
            Byte::Zero(..) => "bytes_zeroed",
            Byte::Insert(..) => "bytes_inserted",
        }
    }
}

/// The position of element `n` (> 0) in its parent: parent's number and child index.
fn locate(e: &XElem, n: usize) -> Option<(usize, usize)> {
    fn go(e: &XElem, me: usize, want: usize) -> Option<(usize, usize)> {
        let mut at = me + 1;
        for (i, k) in e.kids.iter().enumerate() {
            if let XNode::E(c) = k {
                if at == want {
                    return Some((me, i));
                }
                let c_n = c.count();
                if want < at + c_n {
                    return go(c, at, want);
                }
                at += c_n;
            }
        }
        None
    }
    go(e, 0, n)
}

fn damage(e: &mut XElem, d: &Tree) -> bool {
    let count = e.count();
    let at = |n: &u16| *n as usize % count;
    match d {
        Tree::Drop(n) => match locate(e, at(n)) {
            Some((p, i)) => {
                e.nth_mut(p).kids.remove(i);
                true
            }
            None => false,
        },
        Tree::Dup(n) => match locate(e, at(n)) {
            Some((p, i)) => {
                let p = e.nth_mut(p);
                let c = p.kids[i].clone();
                p.kids.insert(i, c);
                true
            }
            None => false,
        },
        Tree::SwapNext(n) => match locate(e, at(n)) {
            Some((p, i)) => {
                let p = e.nth_mut(p);
                match (i + 1..p.kids.len()).find(|j| matches!(p.kids[*j], XNode::E(_))) {
                    Some(j) => {
                        p.kids.swap(i, j);
                        true
                    }
                    None => false,
                }
            }
            None => false,
        },
        Tree::Last(n) => match locate(e, at(n)) {
            Some((p, i)) => {
                let p = e.nth_mut(p);
                let c = p.kids.remove(i);
                p.kids.push(c);
                true
            }
            None => false,
        },
        Tree::Rename(n, s) => {
            e.nth_mut(at(n)).name = s.clone();
            true
        }
        Tree::Namespace(n, s) => {
            e.nth_mut(at(n)).ns = s.clone();
            true
        }
        Tree::Text(n, s) => {
            let x = e.nth_mut(at(n));
            if x.has_elems() {
                return false;
            }
            x.kids = if s.is_empty() { vec![] } else { vec![XNode::T(s.clone())] };
            true
        }
        Tree::DropText(n) => {
            let x = e.nth_mut(at(n));
            if x.has_elems() {
                return false;
            }
            x.kids.clear();
            true
        }
        Tree::DropAttr(n, a) => {
            let x = e.nth_mut(at(n));
            if x.attrs.is_empty() {
                return false;
            }
            let i = *a as usize % x.attrs.len();
            x.attrs.remove(i);
            true
        }
        Tree::SetAttr(n, a, s) => {
            let x = e.nth_mut(at(n));
            if x.attrs.is_empty() {
                return false;
            }
            let i = *a as usize % x.attrs.len();
            x.attrs[i].val = s.clone();
            true
        }
        Tree::RenameAttr(n, a, s) => {
            let x = e.nth_mut(at(n));
            if x.attrs.is_empty() || x.attrs.iter().any(|y| y.name == *s) {
                return false;
            }
            let i = *a as usize % x.attrs.len();
            x.attrs[i].name = s.clone();
            true
        }
        Tree::AddAttr(n, ns, name, v) => {
            let x = e.nth_mut(at(n));
            if x.attrs.iter().any(|y| y.name == *name && y.ns == *ns) {
                return false;
            }
            x.attrs.push(XAttr { ns: ns.clone(), name: name.clone(), val: v.clone() });
            true
        }
        Tree::Graft(n, m) => {
            let c = e.nth_mut(at(m)).clone();
            if c.count() > 60 {
                return false;
            }
            e.nth_mut(at(n)).kids.insert(0, XNode::E(c));
            true
        }
        Tree::Insert(n, name) => {
            let x = e.nth_mut(at(n));
            let c = XElem::new(x.ns.clone(), name);
            let i = x.kids.len() / 2;
            x.kids.insert(i, XNode::E(c));
            true
        }
        Tree::Clear(n) => {
            let x = e.nth_mut(at(n));
            x.kids.clear();
            true
        }
    }
}

fn hurt(b: &mut Vec<u8>, d: &Byte) -> bool {
    if b.is_empty() {
        return false;
    }
    let n = b.len();
    let at = |i: &u32| *i as usize % n;
    match d {
        Byte::Flip(i, m) => {
            b[at(i)] ^= (*m).max(1);
        }
        Byte::Set(i, v) => {
            let k = at(i);
            if b[k] == *v {
                return false;
            }
            b[k] = *v;
        }
        Byte::Cut(i) => b.truncate(at(i)),
        Byte::Remove(i, l) => {
            let k = at(i);
            let e = (k + *l as usize).min(n);
            b.drain(k..e);
        }
        Byte::Repeat(i, l) => {
            let k = at(i);
            let e = (k + *l as usize).min(n);
            let part = b[k..e].to_vec();
            let tail = b.split_off(e);
            b.extend(part);
            b.extend(tail);
        }
        Byte::Zero(i, l) => {
            let k = at(i);
            let e = (k + *l as usize).min(n);
            for x in &mut b[k..e] {
                *x = 0;
            }
        }
        Byte::Insert(i, s) => {
            let k = at(i);
            let tail = b.split_off(k);
            b.extend(s.as_bytes());
            b.extend(tail);
        }
    }
    true
}

const TEXTS: &[&str] = &[
    "", " ", "x", "0", "-1", "1", "true", "TRUE", "True", "1.5", "1e5", "abc", "99999999999999999999999", "2147483648", "-2147483649", "9223372036854775808", "NaN", "INF", "-0", "+5", "007", "1 ", " 1", "1_0",
    "4294967296", "18446744073709551616", "42", "43", "constant", "Constant", "constant ", "x <& y", "red", "Red", "green", "dark-red", "dark_red", "darkRed", "blue ", "été", "0x10", ".", "-", "1.", ".5", "1,5",
    "inf", "-inf", "Infinity", "nan", "+INF", "-INF", "1_000", "+-1", "1e", "e5", "1e+5", "0.1234567890123456789012345678.1", "40722306938599161.00306938599161.0062", "\n1\n", "\t0 ", "\r1", "0\r\n", "true\r", " true", "1\u{a0}",
    "\u{661}", "false", "no", "2nd", "NaN ", "a b", "a  b", "A B", "none", "None", "Zz", "zz", "1..", "1.0.", "--1", "1-", "+", "-.5", "+.5", "-+1", "1 2", "1\u{2003}", "\u{feff}1", "0.0", "-0.0", "00", "1e-5", "1E5", "1f", "1u8", "0b1", "yes", "on", "tru", "truee", "01", "3.4028236e38", "1e39", "79228162514264337593543950336",
];

pub fn pick_text(rng: &mut Rng, doc: &mut XElem) -> String {
    match rng.below(7) {
        0..=2 => rng.pick(TEXTS).to_string(),
        3 => {
            let n = rng.below(doc.count());
            doc.nth_mut(n).text()
        }
        4 | 5 => {
            // a value that is there, with one character more, less or other
            let n = rng.below(doc.count());
            let mut c: Vec<char> = doc.nth_mut(n).text().chars().collect();
            let at = if rng.pct(40) { c.len() } else { rng.below(c.len() + 1) };
            let new = if !c.is_empty() && rng.pct(40) { *rng.pick(&c) } else { *rng.pick(&['.', '-', '+', '0', '1', 'e', 'E', ' ', '_', ',', 'x', '\n', '\u{a0}']) };
            match rng.below(3) {
                0 if at < c.len() => c[at] = new,
                1 if at < c.len() => drop(c.remove(at)),
                _ => c.insert(at, new),
            }
            c.into_iter().collect()
        }
        _ => gen_string(rng, true),
    }
}

/// Another name that looks like this one.
fn like(rng: &mut Rng, name: &str) -> String {
    let mut c: Vec<char> = name.chars().collect();
    match rng.below(8) {
        0 => c.push('s'),
        1 if c.len() > 1 => {
            c.pop();
        }
        2 => {
            let l = *rng.pick(&[45, 70, 130, 300, 1100]);
            while c.len() < l {
                c.push(*rng.pick(&['x', 'é', '_']));
            }
        }
        3 => return if name.contains(char::is_uppercase) { name.to_lowercase() } else { name.to_uppercase() },
        4 if name.contains(['-', '_']) => return name.chars().map(|c| if c == '-' { '_' } else if c == '_' { '-' } else { c }).collect(),
        5 => c.push(*rng.pick(&['/', '-', '_', '.', '1'])),
        _ if c[0].is_uppercase() => c[0] = c[0].to_ascii_lowercase(),
        _ => c[0] = c[0].to_ascii_uppercase(),
    }
    if c.contains(&'/') && !name.contains(':') && !name.contains('/') {
        c.pop();
        c.push('z');
    }
    c.into_iter().collect()
}

pub struct C03;

impl Prop for C03 {
    type Sc = Sc;
    const ID: &'static str = "C03";
    const RUNS: (u64, u64) = (1_500_000, 12_000_000);
    const RULE: &'static str = "one run = one conforming document, damaged on its way to the reader; non-trivial: at least one damage applied; distinct: by type and damaged bytes";
    const REAL: &'static str = "generated decoders and encoders compiled from the current tree, xsd::{Context, decode}, roxmltree, xml-rs (all unmodified)";
    const STUB: &'static str = "the channel (simulated damage to elements and bytes); the reference decoder judges what the damaged text says";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let target = Target::pick(rng);
        let f = target.find().expect("target");
        let budget = rng.range(3, 40) as i64;
        let mut doc = f.gen(rng, budget);
        let mut tree = vec![];
        let mut bytes = vec![];
        let count = doc.count();
        // names that mean something in this schema
        let mut names: Vec<String> = Vec::new();
        let mut attrs: Vec<String> = Vec::new();
        doc.each(&mut |x| {
            names.push(x.name.clone());
            attrs.extend(x.attrs.iter().map(|a| a.name.clone()));
        });
        for g in &f.schema.roots {
            names.push(g.0.name.clone());
        }
        let uris: Vec<Option<String>> = {
            let mut v: Vec<Option<String>> = f.schema.model.files.iter().map(|f| f.tns.clone()).collect();
            v.push(None);
            v.push(Some("urn:other".into()));
            v
        };
        if rng.pct(85) {
            for _ in 0..*rng.pick(&[1, 1, 1, 1, 2, 2, 3, 5]) {
                let n = rng.below(count.max(1) + 1) as u16;
                tree.push(match rng.below(20) {
                    0..=2 => Tree::Drop(n),
                    3 => Tree::Dup(n),
                    4 => Tree::SwapNext(n),
                    5 => Tree::Last(n),
                    6 => {
                        let s = match rng.below(4) {
                            0 => "unknown".to_string(),
                            1 => like(rng, &doc.nth_mut(n as usize).name.clone()),
                            _ => rng.pick(&names).clone(),
                        };
                        Tree::Rename(n, s)
                    }
                    7 => {
                        let u = match rng.pick(&uris).clone() {
                            Some(u) if rng.pct(30) => Some(like(rng, &u)),
                            u => u,
                        };
                        Tree::Namespace(n, u)
                    }
                    8..=11 => Tree::Text(n, pick_text(rng, &mut doc)),
                    12 => Tree::DropText(n),
                    13 => Tree::DropAttr(n, rng.below(6) as u8),
                    14..=15 => Tree::SetAttr(n, rng.below(6) as u8, pick_text(rng, &mut doc)),
                    16 => {
                        let s = match rng.below(5) {
                            0..=2 if !attrs.is_empty() => rng.pick(&attrs).clone(),
                            3 if !attrs.is_empty() => {
                                let a = rng.pick(&attrs).clone();
                                like(rng, &a)
                            }
                            _ => "unknown".to_string(),
                        };
                        if rng.pct(50) {
                            Tree::RenameAttr(n, rng.below(6) as u8, s)
                        } else {
                            Tree::AddAttr(n, rng.pick(&uris).clone(), s, pick_text(rng, &mut doc))
                        }
                    }
                    17 => Tree::Graft(n, rng.below(count) as u16),
                    18 => {
                        let x = rng.pick(&names).clone();
                        Tree::Insert(n, if rng.pct(25) { like(rng, &x) } else { x })
                    }
                    _ => Tree::Clear(n),
                });
            }
        }
        if tree.is_empty() || rng.pct(15) {
            for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                let at = rng.next() as u32 >> 8;
                bytes.push(match rng.below(12) {
                    0..=1 => Byte::Flip(at, 1 << rng.below(8)),
                    2..=3 => Byte::Set(at, *rng.pick(b"<>/\"'&; 019abzAZ-=:!?\0\n\xff")),
                    4 => Byte::Cut(at),
                    5..=6 => Byte::Remove(at, rng.range(1, 12) as u32),
                    7 => Byte::Repeat(at, rng.range(1, 60) as u32),
                    8 => Byte::Zero(at, rng.range(1, 8) as u32),
                    9 => Byte::Remove(at, rng.range(10, 200) as u32),
                    _ => Byte::Insert(at, rng.pick(&["<", "</x>", "<x/>", "&lt;", "&#0;", "&#x41;", "1", " ", "\u{feff}", "<!DOCTYPE a [<!ENTITY e \"v\">]>", "&e;", "<!--", "-->", "<![CDATA[", "]]>", "xmlns=\"\""]).to_string()),
                });
            }
        }
        let style = if rng.pct(70) { plain() } else { crate::c11::style(rng) };
        Sc { target, doc, tree, style, bytes, raw: false }
    }

    fn exec(sc: &Sc, _env: &Env) -> Outcome {
        let mut o = Outcome::default();
        o.trivial = true;
        let Some(f) = sc.target.find() else { return o };
        let mut doc = sc.doc.clone();
        for d in &sc.tree {
            if damage(&mut doc, d) {
                o.fault(d.name());
                o.trivial = false;
            }
        }
        let mut bytes = write(&doc, &sc.style).into_bytes();
        for d in &sc.bytes {
            if hurt(&mut bytes, d) {
                o.fault(d.name());
                o.trivial = false;
            }
        }
        o.steps = 1 + (sc.tree.len() + sc.bytes.len()) as u64;
        o.sig = hash_bytes(hash_bytes(3, sc.target.schema.as_bytes()), &bytes);
        let Ok(text) = String::from_utf8(bytes) else {
            o.probe("not_utf8");
            return o;
        };
        let parsed = xmltree::parse(&text);
        let verdict = match &parsed {
            Err(e) => Verdict::Broken(format!("not well-formed: {e}")),
            Ok(t) => f.judge(t),
        };
        let r = match f.decode(&text) {
            Ok(r) => r,
            Err(p) => {
                o.fail("panic", format!("{p}: {}", short(&text)));
                return o;
            }
        };
        o.note(&[r.is_ok() as u8]);
        match (verdict, r) {
            (Verdict::Broken(why), Ok(v)) => {
                o.fail("accepted", format!("{why}, but it decodes to {}: {}", short(&v.show()), short(&text)));
            }
            (Verdict::Broken(why), Err(e)) => {
                let _ = e.to_string();
                o.probe(if why.starts_with("not well") {
                    "rejected_not_well_formed"
                } else if why.contains("attribute") {
                    "rejected_attribute"
                } else if why.contains("missing") {
                    "rejected_missing"
                } else if why.contains("literal") {
                    "rejected_literal"
                } else if why.contains("enumeration") {
                    "rejected_enumeration"
                } else if why.contains("fixed") {
                    "rejected_fixed"
                } else if why.contains("choice") {
                    "rejected_choice"
                } else {
                    "rejected_other"
                });
            }
            (Verdict::Valid(_), Err(e)) => {
                o.fail("conforming_rejected", format!("{e}: {}", short(&text)));
            }
            (Verdict::Valid(want), Ok(v)) => {
                o.probe("still_conforming");
                if unwritable(&want) {
                    return o;
                }
                match to_xml(&*v) {
                    Ok(Ok(b)) => match parse_bytes(&b) {
                        Ok(t) => {
                            o.note(&b);
                            if !same_tree(&want, &t) {
                                o.fail("misread", format!("{}: {}", diff(&want, &t), short(&text)));
                            }
                        }
                        Err(e) => o.fail("misread", format!("re-encoded document is not well-formed: {e}")),
                    },
                    Ok(Err(e)) => o.fail("encode_error", e.to_string()),
                    Err(p) => o.fail("panic", p),
                }
            }
            (Verdict::Unsure(u), Err(e)) if sc.raw && u == EMPTY_ALTERNATIVE => {
                o.fail("conforming_rejected", format!("{e}: {}", short(&text)));
            }
            (Verdict::Unsure(_), r) => {
                o.probe(if r.is_ok() { "undecided_accepted" } else { "undecided_rejected" });
                if let Ok(v) = r {
                    if let Err(p) = to_xml(&*v) {
                        o.fail("panic", p);
                    }
                }
            }
        }
        o
    }
}
