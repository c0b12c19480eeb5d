//! XML element trees, independent of the code under test.
use serde::{Deserialize, Serialize};

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct XElem {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ns: Option<String>,
    pub name: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub attrs: Vec<XAttr>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kids: Vec<XNode>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct XAttr {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ns: Option<String>,
    pub name: String,
    pub val: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum XNode {
    E(XElem),
    T(String),
}

impl XElem {
    pub fn new(ns: Option<String>, name: &str) -> XElem {
        XElem { ns, name: name.to_string(), attrs: vec![], kids: vec![] }
    }
    pub fn elems(&self) -> Vec<&XElem> {
        self.kids.iter().filter_map(|k| if let XNode::E(e) = k { Some(e) } else { None }).collect()
    }
    /// Concatenated text children.
    pub fn text(&self) -> String {
        self.kids.iter().filter_map(|k| if let XNode::T(t) = k { Some(t.as_str()) } else { None }).collect()
    }
    pub fn has_elems(&self) -> bool {
        self.kids.iter().any(|k| matches!(k, XNode::E(_)))
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| if let XNode::E(e) = k { e.count() } else { 0 }).sum::<usize>()
    }
    /// Every element in document order.
    pub fn each<'a>(&'a self, f: &mut dyn FnMut(&'a XElem)) {
        f(self);
        for k in &self.kids {
            if let XNode::E(e) = k {
                e.each(f);
            }
        }
    }
    /// The nth element in document order (modulo the number of elements).
    pub fn nth_mut(&mut self, n: usize) -> &mut XElem {
        let c = self.count();
        let mut n = n % c;
        self.nth_rec(&mut n).expect("in range")
    }
    fn nth_rec(&mut self, n: &mut usize) -> Option<&mut XElem> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for k in &mut self.kids {
            if let XNode::E(e) = k {
                let c = e.count();
                if *n < c {
                    return e.nth_rec(n);
                }
                *n -= c;
            }
        }
        None
    }
    pub fn elem_positions(&self) -> Vec<usize> {
        self.kids.iter().enumerate().filter(|(_, k)| matches!(k, XNode::E(_))).map(|(i, _)| i).collect()
    }
}

pub fn from_rox(n: roxmltree::Node) -> XElem {
    let mut e = XElem::new(n.tag_name().namespace().filter(|u| !u.is_empty()).map(String::from), n.tag_name().name());
    for a in n.attributes() {
        e.attrs.push(XAttr { ns: a.namespace().map(String::from), name: a.name().to_string(), val: a.value().to_string() });
    }
    for c in n.children() {
        if c.is_element() {
            e.kids.push(XNode::E(from_rox(c)));
        } else if c.is_text() {
            let t = c.text().unwrap_or("");
            if let Some(XNode::T(last)) = e.kids.last_mut() {
                last.push_str(t);
            } else {
                e.kids.push(XNode::T(t.to_string()));
            }
        }
    }
    e
}

pub fn parse(s: &str) -> Result<XElem, String> {
    let d = roxmltree::Document::parse(s).map_err(|e| e.to_string())?;
    Ok(from_rox(d.root_element()))
}

/// How a relay lays a document out. All choices preserve the meaning of the document.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Style {
    /// Seed for the choices below.
    pub seed: u64,
    pub decl: bool,
    /// Whitespace between elements (never inside text-only elements).
    pub spaces: bool,
    pub comments: bool,
    /// Comments and processing instructions inside text content.
    pub text_comments: bool,
    pub pis: bool,
    pub cdata: bool,
    pub char_refs: bool,
    pub single_quotes: bool,
    /// 0: no default namespace, 1: default namespace for the root's namespace, 2: redeclared locally
    pub ns_mode: u8,
    pub shuffle_attrs: bool,
    pub expand_empty: bool,
}

pub fn plain() -> Style {
    Style { decl: true, ns_mode: 1, ..Default::default() }
}

pub fn write(e: &XElem, st: &Style) -> String {
    let mut rng = Rng::new(st.seed);
    let mut out = String::new();
    if st.decl {
        out.push_str(if rng.pct(50) || st.seed == 0 { DECLS[0] } else { rng.pick(DECLS) });
    }
    misc(&mut out, st, &mut rng);
    let mut uris = Vec::new();
    collect(e, &mut uris);
    let map: Vec<String> = (0..uris.len()).map(|i| prefix(i, st.seed)).collect();
    welem(e, st, &mut rng, &mut out, &uris, &map, None, true);
    misc(&mut out, st, &mut rng);
    out
}

const DECLS: &[&str] = &[
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
    "<?xml version='1.0'?>",
    "<?xml version='1.0' encoding='utf-8' ?>",
    "<?xml version=\"1.0\" standalone=\"yes\"?>",
    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone='no'?>",
];

fn collect(e: &XElem, uris: &mut Vec<String>) {
    if let Some(n) = &e.ns {
        if !uris.contains(n) {
            uris.push(n.clone());
        }
    }
    for a in &e.attrs {
        if let Some(n) = &a.ns {
            if n != "http://www.w3.org/XML/1998/namespace" && !uris.contains(n) {
                uris.push(n.clone());
            }
        }
    }
    for k in e.elems() {
        collect(k, uris);
    }
}

fn misc(out: &mut String, st: &Style, rng: &mut Rng) {
    if st.spaces && rng.pct(70) {
        for _ in 0..rng.range(1, 4) {
            out.push_str(*rng.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
        }
    }
    if st.comments && rng.pct(30) {
        out.push_str(*rng.pick(&["<!-- c -->", "<!---->", "<!-- <x>&nope; -->", "<!--\u{e9}-->", "<!-- -->", "<!-- ]]> - ?> -->"]));
    }
    if st.pis && rng.pct(20) {
        out.push_str(*rng.pick(&["<?relay hop=\"1\"?>", "<?x?>", "<?x <a>&nope;--> ?>"]));
    }
}

const PREFIXES: &[&str] = &["p", "q", "ns1", "ns2", "a-b", "_x", "xsd", "tns", "é", "long-prefix.with_dots", "XML2", "NS1", "a"];

fn prefix(i: usize, seed: u64) -> String {
    if seed == 0 {
        return format!("p{i}");
    }
    let k = (seed as usize).wrapping_add(i) % PREFIXES.len();
    if i < PREFIXES.len() {
        PREFIXES[k].to_string()
    } else {
        format!("{}{}", PREFIXES[k], i)
    }
}

#[allow(clippy::too_many_arguments)]
fn welem(e: &XElem, st: &Style, rng: &mut Rng, out: &mut String, uris: &[String], map: &[String], default: Option<&str>, root: bool) {
    // decide the default namespace in force for this element
    let mut decls: Vec<String> = Vec::new();
    let q = if st.single_quotes { '\'' } else { '"' };
    let mut default: Option<&str> = default;
    if root {
        for (i, u) in uris.iter().enumerate() {
            decls.push(format!("xmlns:{}={q}{}{q}", map[i], esc_attr(u, st, &mut Rng::new(0), q)));
        }
    }
    // from here on inwards, prefixes may mean something else
    let mut swapped: Vec<String>;
    let mut map = map;
    if st.ns_mode == 3 && !root && rng.pct(15) {
        if uris.len() > 1 && rng.pct(60) {
            let i = rng.below(uris.len());
            let j = rng.below(uris.len());
            if i != j {
                swapped = map.to_vec();
                swapped.swap(i, j);
                for k in [i, j] {
                    decls.push(format!("xmlns:{}={q}{}{q}", swapped[k], esc_attr(&uris[k], st, &mut Rng::new(0), q)));
                }
                map = &swapped;
            }
        } else if let Some(i) = e.ns.as_ref().and_then(|u| uris.iter().position(|x| x == u)) {
            swapped = map.to_vec();
            swapped[i] = (0..).map(|k| format!("local{k}")).find(|p| !map.contains(p)).expect("prefix");
            decls.push(format!("xmlns:{}={q}{}{q}", swapped[i], esc_attr(&uris[i], st, &mut Rng::new(0), q)));
            map = &swapped;
        } else {
            decls.push(format!("xmlns:unused={q}urn:unused{q}"));
        }
    }
    let want_default = match st.ns_mode {
        0 => None,
        1 => {
            if root {
                e.ns.as_deref()
            } else {
                default
            }
        }
        _ => {
            if rng.pct(40) {
                e.ns.as_deref()
            } else {
                default
            }
        }
    };
    let mut new_default = want_default;
    if e.ns.is_none() && new_default.is_some() {
        new_default = None; // must be undeclared for this element
    }
    if new_default != default {
        decls.push(format!("xmlns={q}{}{q}", esc_attr(new_default.unwrap_or(""), st, &mut Rng::new(0), q)));
        default = new_default;
    }
    let tag = match &e.ns {
        None => e.name.clone(),
        Some(u) if default == Some(u.as_str()) && (st.ns_mode == 1 || rng.pct(70)) => e.name.clone(),
        Some(u) => format!("{}:{}", map[uris.iter().position(|x| x == u).unwrap_or(0)], e.name),
    };
    out.push('<');
    out.push_str(&tag);
    let mut parts: Vec<String> = decls;
    for a in &e.attrs {
        let n = match &a.ns {
            None => a.name.clone(),
            Some(u) if u == "http://www.w3.org/XML/1998/namespace" => format!("xml:{}", a.name),
            Some(u) => format!("{}:{}", map[uris.iter().position(|x| x == u).unwrap_or(0)], a.name),
        };
        let q = if st.shuffle_attrs && rng.pct(30) { if q == '"' { '\'' } else { '"' } } else { q };
        let eq = if st.spaces && rng.pct(10) { " = " } else { "=" };
        parts.push(format!("{n}{eq}{q}{}{q}", esc_attr(&a.val, st, rng, q)));
    }
    if st.shuffle_attrs {
        rng.shuffle(&mut parts);
    }
    for p in parts {
        out.push_str(if st.spaces && rng.pct(30) { "\n  " } else { " " });
        out.push_str(&p);
    }
    if e.kids.is_empty() && !(st.expand_empty && rng.pct(70)) {
        out.push_str(if st.spaces && rng.pct(50) { " />" } else { "/>" });
        return;
    }
    out.push('>');
    let element_only = e.has_elems();
    if element_only {
        misc(out, st, rng);
    }
    for k in &e.kids {
        match k {
            XNode::E(c) => {
                welem(c, st, rng, out, uris, map, default, false);
                misc(out, st, rng);
            }
            XNode::T(t) => wtext(t, st, rng, out),
        }
    }
    out.push_str("</");
    out.push_str(&tag);
    if st.spaces && rng.pct(5) {
        out.push_str(rng.pick(&[" ", "\n"]));
    }
    out.push('>');
}

fn wtext(t: &str, st: &Style, rng: &mut Rng, out: &mut String) {
    let tc = |out: &mut String, rng: &mut Rng| {
        if st.text_comments && rng.pct(40) {
            out.push_str(*rng.pick(&["<!-- in text -->", "<?pi in text?>", "<!---->", "<!-- -->", "<?p <![CDATA[?>"]));
        }
    };
    if t.is_empty() {
        return;
    }
    tc(out, rng);
    let chars: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        let n = if rng.pct(10) { chars.len() - i } else { rng.range(1, 6).min(chars.len() - i) };
        let piece: String = if st.cdata || st.text_comments { chars[i..i + n].iter().collect() } else { chars[i..].iter().collect() };
        i += piece.chars().count();
        if st.cdata && rng.pct(40) && !piece.contains("]]>") && !piece.contains('\r') {
            out.push_str("<![CDATA[");
            out.push_str(&piece);
            out.push_str("]]>");
        } else {
            for c in piece.chars() {
                if st.char_refs && rng.pct(15) {
                    out.push_str(&char_ref(c, rng));
                    continue;
                }
                match c {
                    '<' => out.push_str("&lt;"),
                    '&' => out.push_str("&amp;"),
                    '>' => out.push_str("&gt;"),
                    '\r' => out.push_str("&#xD;"),
                    c => out.push(c),
                }
            }
        }
        tc(out, rng);
    }
}

fn char_ref(c: char, rng: &mut Rng) -> String {
    if rng.pct(50) {
        format!("&#{};", c as u32)
    } else {
        format!("&#x{:X};", c as u32)
    }
}

fn esc_attr(v: &str, st: &Style, rng: &mut Rng, q: char) -> String {
    let mut o = String::new();
    for c in v.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '&' => o.push_str("&amp;"),
            '\n' => o.push_str("&#10;"),
            '\r' => o.push_str("&#13;"),
            '\t' => o.push_str("&#9;"),
            c if c == q => o.push_str(if q == '"' { "&quot;" } else { "&apos;" }),
            c if st.char_refs && rng.pct(15) => o.push_str(&char_ref(c, rng)),
            c => o.push(c),
        }
    }
    o
}
