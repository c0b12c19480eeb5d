//! Schema model: what a set of schema files means, independent of the code under test.
//! Prints XSD text, makes conforming documents, and judges documents (reference decoder).
use serde::{Deserialize, Serialize};

use crate::rng::Rng;
use crate::xmltree::{XAttr, XElem, XNode};

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Lit {
    String,
    Boolean,
    Integer,
    Long,
    NonNeg,
    Positive,
    Int,
    Decimal,
    Float,
    Time,
    Date,
    DateTime,
    Duration,
    Base64,
    Hex,
    AnyType,
}
pub const LITS: &[Lit] = &[
    Lit::String,
    Lit::Boolean,
    Lit::Integer,
    Lit::Long,
    Lit::NonNeg,
    Lit::Positive,
    Lit::Int,
    Lit::Decimal,
    Lit::Float,
    Lit::Time,
    Lit::Date,
    Lit::DateTime,
    Lit::Duration,
    Lit::Base64,
    Lit::Hex,
    Lit::AnyType,
];

impl Lit {
    pub fn xsd(self) -> &'static str {
        match self {
            Lit::String => "string",
            Lit::Boolean => "boolean",
            Lit::Integer => "integer",
            Lit::Long => "long",
            Lit::NonNeg => "nonNegativeInteger",
            Lit::Positive => "positiveInteger",
            Lit::Int => "int",
            Lit::Decimal => "decimal",
            Lit::Float => "float",
            Lit::Time => "time",
            Lit::Date => "date",
            Lit::DateTime => "dateTime",
            Lit::Duration => "duration",
            Lit::Base64 => "base64Binary",
            Lit::Hex => "hexBinary",
            Lit::AnyType => "anyType",
        }
    }
    /// Represented as a string by the generated code.
    pub fn stringy(self) -> bool {
        !matches!(
            self,
            Lit::Boolean | Lit::Integer | Lit::Long | Lit::NonNeg | Lit::Positive | Lit::Int | Lit::Decimal | Lit::Float
        )
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct GRef {
    pub file: usize,
    pub name: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Model {
    pub files: Vec<FileModel>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileModel {
    pub path: String,
    pub tns: Option<String>,
    pub qualified: bool,
    /// 0: "xs:" prefix; 1: XSD is the default namespace; 2: "xs:" prefix and the target namespace is the default.
    pub style: u8,
    /// Files included (same target namespace) or imported (other one), in order.
    pub refs: Vec<usize>,
    /// References come after the declarations.
    pub refs_last: bool,
    pub decls: Vec<Decl>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Decl {
    pub name: String,
    pub docs: Option<String>,
    pub kind: DeclKind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DeclKind {
    Element(TypeUse),
    Simple(SimpleTy),
    Complex(ComplexTy),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TypeUse {
    Lit(Lit),
    Fixed(Lit, String),
    Named(GRef),
    Simple(SimpleTy),
    Complex(Box<ComplexTy>),
    /// `<element name="x"/>` inside a content model: any text.
    Untyped,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimpleTy {
    pub base: Lit,
    pub enums: Vec<String>,
    /// (facet, value): printed, not checked (the generated code does not check facets).
    pub facets: Vec<(String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ComplexTy {
    pub attrs: Vec<AttrModel>,
    pub body: Body,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Empty,
    Seq { min: u32, max: Max, parts: Vec<Particle> },
    All(Vec<ElemP>),
    /// minOccurs="0"
    OptAll(Vec<ElemP>),
    Choice(Vec<Variant>),
    /// simpleContent: Lit or Named
    SimpleContent(TypeUse),
    Extension { base: GRef, seq: Option<(u32, Vec<Particle>)> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Max {
    N(u32),
    Unbounded,
}
impl Max {
    pub fn many(self) -> bool {
        !matches!(self, Max::N(0) | Max::N(1))
    }
    fn bound(self) -> usize {
        match self {
            Max::N(n) => n as usize,
            Max::Unbounded => usize::MAX,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Particle {
    Elem(ElemP),
    Choice { min: u32, max: Max, variants: Vec<Variant> },
    Seq { min: u32, parts: Vec<Particle> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Variant {
    Elem(ElemP),
    Seq(Vec<Particle>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ElemP {
    /// Element name, or the referenced global element.
    pub name: String,
    pub refers: Option<GRef>,
    pub ty: TypeUse,
    pub min: u32,
    pub max: Max,
    pub default: Option<String>,
    pub docs: Option<String>,
    /// form="qualified" (true) or "unqualified"
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub form: Option<bool>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AttrModel {
    pub name: String,
    /// Lit, Fixed, Simple or Named (enumeration or string restriction)
    pub ty: TypeUse,
    pub usage: Usage,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Usage {
    Required,
    Optional,
    OptionalImplicit,
    Default(String),
    Prohibited,
}

// ---------------------------------------------------------------------------------------------
// lookups

impl Model {
    pub fn decl(&self, g: &GRef) -> Option<&Decl> {
        self.files.get(g.file)?.decls.iter().find(|d| d.name == g.name)
    }
    pub fn tns(&self, file: usize) -> Option<String> {
        self.files[file].tns.clone()
    }
    fn local_ns(&self, file: usize) -> Option<String> {
        if self.files[file].qualified {
            self.tns(file)
        } else {
            None
        }
    }
    /// Namespace and name of an element particle declared in `file`.
    pub fn elem_name(&self, file: usize, e: &ElemP) -> (Option<String>, String) {
        match &e.refers {
            Some(g) => (self.tns(g.file), g.name.clone()),
            None => {
                let ns = match e.form {
                    Some(true) => self.tns(file),
                    Some(false) => None,
                    None => self.local_ns(file),
                };
                (ns, e.name.clone())
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// XSD text

struct Printer<'a> {
    m: &'a Model,
    file: usize,
    out: String,
    ind: usize,
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

/// Path of `to` relative to the directory of `from` (both relative to one base directory).
pub fn relative(from: &str, to: &str) -> String {
    let fd: Vec<&str> = from.split('/').collect();
    let td: Vec<&str> = to.split('/').collect();
    let (fd, tf) = (&fd[..fd.len() - 1], td[td.len() - 1]);
    let td = &td[..td.len() - 1];
    let common = fd.iter().zip(td.iter()).take_while(|(a, b)| a == b).count();
    let mut o = String::new();
    for _ in common..fd.len() {
        o.push_str("../");
    }
    for d in &td[common..] {
        o.push_str(d);
        o.push('/');
    }
    o.push_str(tf);
    o
}

impl Printer<'_> {
    fn x(&self) -> &'static str {
        if self.m.files[self.file].style == 1 {
            ""
        } else {
            "xs:"
        }
    }
    fn line(&mut self, s: &str) {
        for _ in 0..self.ind {
            self.out.push_str("  ");
        }
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn qname(&self, g: &GRef) -> String {
        let f = &self.m.files[self.file];
        match self.m.tns(g.file) {
            None => g.name.clone(),
            Some(u) => {
                if f.style == 2 && f.tns.as_deref() == Some(&u) {
                    return g.name.clone();
                }
                format!("{}:{}", self.prefix(&u), g.name)
            }
        }
    }
    fn uris(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for f in &self.m.files {
            if let Some(u) = &f.tns {
                if !v.contains(u) {
                    v.push(u.clone());
                }
            }
        }
        v
    }
    fn prefix(&self, u: &str) -> String {
        if self.m.files[self.file].tns.as_deref() == Some(u) {
            return "tns".into();
        }
        let i = self.uris().iter().position(|x| x == u).unwrap_or(0);
        format!("q{i}")
    }
    fn ltype(&self, l: Lit) -> String {
        format!("{}{}", self.x(), l.xsd())
    }
    fn docs(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            let x = self.x();
            self.line(&format!("<{x}annotation><{x}documentation>{}</{x}documentation></{x}annotation>", esc(d)));
        }
    }
    fn schema(&mut self) {
        let f = self.m.files[self.file].clone();
        let x = self.x();
        let mut head = format!("<{x}schema");
        if f.style == 1 {
            head.push_str(&format!(" xmlns=\"{XSD}\""));
        } else {
            head.push_str(&format!(" xmlns:xs=\"{XSD}\""));
        }
        if let Some(t) = &f.tns {
            if f.style == 2 {
                head.push_str(&format!(" xmlns=\"{}\"", esc(t)));
            }
            head.push_str(&format!(" xmlns:tns=\"{}\" targetNamespace=\"{}\"", esc(t), esc(t)));
        }
        for u in self.uris() {
            if f.tns.as_deref() != Some(&u) {
                head.push_str(&format!(" xmlns:{}=\"{}\"", self.prefix(&u), esc(&u)));
            }
        }
        if f.qualified {
            head.push_str(" elementFormDefault=\"qualified\"");
        }
        head.push('>');
        self.line("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
        self.line(&head);
        self.ind += 1;
        if !f.refs_last {
            self.refs(&f);
        }
        for d in &f.decls {
            self.decl(d);
        }
        if f.refs_last {
            self.refs(&f);
        }
        self.ind -= 1;
        self.line(&format!("</{x}schema>"));
    }
    fn refs(&mut self, f: &FileModel) {
        let x = self.x();
        for r in &f.refs {
            let Some(t) = self.m.files.get(*r) else { continue };
            let loc = relative(&f.path, &t.path);
            if t.tns == f.tns {
                self.line(&format!("<{x}include schemaLocation=\"{}\"/>", esc(&loc)));
            } else {
                let ns = t.tns.as_ref().map(|u| format!(" namespace=\"{}\"", esc(u))).unwrap_or_default();
                self.line(&format!("<{x}import{ns} schemaLocation=\"{}\"/>", esc(&loc)));
            }
        }
    }
    fn decl(&mut self, d: &Decl) {
        let n = d.name.clone();
        match &d.kind {
            DeclKind::Element(t) => self.elem_body(&format!("name=\"{n}\""), t, &d.docs),
            DeclKind::Simple(s) => self.simple(s, Some(&n), &d.docs),
            DeclKind::Complex(c) => self.complex(c, Some(&n), &d.docs),
        }
    }
    fn elem_body(&mut self, attrs: &str, t: &TypeUse, docs: &Option<String>) {
        let x = self.x();
        let ta = match t {
            TypeUse::Lit(l) => format!(" type=\"{}\"", self.ltype(*l)),
            TypeUse::Fixed(l, v) => format!(" type=\"{}\" fixed=\"{}\"", self.ltype(*l), esc(v)),
            TypeUse::Named(g) => format!(" type=\"{}\"", self.qname(g)),
            _ => String::new(),
        };
        let nested = matches!(t, TypeUse::Simple(_) | TypeUse::Complex(_));
        if !nested && docs.is_none() {
            self.line(&format!("<{x}element {attrs}{ta}/>"));
            return;
        }
        self.line(&format!("<{x}element {attrs}{ta}>"));
        self.ind += 1;
        self.docs(docs);
        match t {
            TypeUse::Simple(s) => self.simple(s, None, &None),
            TypeUse::Complex(c) => self.complex(c, None, &None),
            _ => {}
        }
        self.ind -= 1;
        self.line(&format!("</{x}element>"));
    }
    fn simple(&mut self, s: &SimpleTy, name: Option<&str>, docs: &Option<String>) {
        let x = self.x();
        let n = name.map(|n| format!(" name=\"{n}\"")).unwrap_or_default();
        self.line(&format!("<{x}simpleType{n}>"));
        self.ind += 1;
        self.docs(docs);
        self.line(&format!("<{x}restriction base=\"{}\">", self.ltype(s.base)));
        self.ind += 1;
        for e in &s.enums {
            self.line(&format!("<{x}enumeration value=\"{}\"/>", esc(e)));
        }
        for (k, v) in &s.facets {
            self.line(&format!("<{x}{k} value=\"{}\"/>", esc(v)));
        }
        self.ind -= 1;
        self.line(&format!("</{x}restriction>"));
        self.ind -= 1;
        self.line(&format!("</{x}simpleType>"));
    }
    fn attrs(&mut self, attrs: &[AttrModel]) {
        let x = self.x();
        for a in attrs {
            let u = match &a.usage {
                Usage::Required => " use=\"required\"".to_string(),
                Usage::Optional => " use=\"optional\"".to_string(),
                Usage::OptionalImplicit => String::new(),
                Usage::Default(v) => format!(" default=\"{}\"", esc(v)),
                Usage::Prohibited => " use=\"prohibited\"".to_string(),
            };
            match &a.ty {
                TypeUse::Simple(s) => {
                    self.line(&format!("<{x}attribute name=\"{}\"{u}>", a.name));
                    self.ind += 1;
                    self.simple(s, None, &None);
                    self.ind -= 1;
                    self.line(&format!("</{x}attribute>"));
                }
                t => {
                    let ta = match t {
                        TypeUse::Lit(l) => format!(" type=\"{}\"", self.ltype(*l)),
                        TypeUse::Fixed(l, v) => format!(" type=\"{}\" fixed=\"{}\"", self.ltype(*l), esc(v)),
                        TypeUse::Named(g) => format!(" type=\"{}\"", self.qname(g)),
                        _ => String::new(),
                    };
                    self.line(&format!("<{x}attribute name=\"{}\"{ta}{u}/>", a.name));
                }
            }
        }
    }
    fn complex(&mut self, c: &ComplexTy, name: Option<&str>, docs: &Option<String>) {
        let x = self.x();
        let n = name.map(|n| format!(" name=\"{n}\"")).unwrap_or_default();
        self.line(&format!("<{x}complexType{n}>"));
        self.ind += 1;
        self.docs(docs);
        match &c.body {
            Body::Empty => self.attrs(&c.attrs),
            Body::Seq { min, max, parts } => {
                self.line(&format!("<{x}sequence{}>", occurs(*min, *max)));
                self.parts(parts);
                self.line(&format!("</{x}sequence>"));
                self.attrs(&c.attrs);
            }
            Body::All(es) | Body::OptAll(es) => {
                self.line(&format!("<{x}all{}>", if matches!(c.body, Body::OptAll(_)) { " minOccurs=\"0\"" } else { "" }));
                self.ind += 1;
                for e in es {
                    self.elem(e);
                }
                self.ind -= 1;
                self.line(&format!("</{x}all>"));
                self.attrs(&c.attrs);
            }
            Body::Choice(vs) => {
                self.line(&format!("<{x}choice>"));
                self.variants(vs);
                self.line(&format!("</{x}choice>"));
                self.attrs(&c.attrs);
            }
            Body::SimpleContent(t) => {
                let b = match t {
                    TypeUse::Lit(l) => self.ltype(*l),
                    TypeUse::Named(g) => self.qname(g),
                    _ => self.ltype(Lit::String),
                };
                self.line(&format!("<{x}simpleContent>"));
                self.line(&format!("<{x}extension base=\"{b}\">"));
                self.ind += 1;
                self.attrs(&c.attrs);
                self.ind -= 1;
                self.line(&format!("</{x}extension>"));
                self.line(&format!("</{x}simpleContent>"));
            }
            Body::Extension { base, seq } => {
                let b = self.qname(base);
                self.line(&format!("<{x}complexContent>"));
                self.line(&format!("<{x}extension base=\"{b}\">"));
                self.ind += 1;
                if let Some((min, parts)) = seq {
                    self.line(&format!("<{x}sequence{}>", occurs(*min, Max::N(1))));
                    self.parts(parts);
                    self.line(&format!("</{x}sequence>"));
                }
                self.attrs(&c.attrs);
                self.ind -= 1;
                self.line(&format!("</{x}extension>"));
                self.line(&format!("</{x}complexContent>"));
            }
        }
        self.ind -= 1;
        self.line(&format!("</{x}complexType>"));
    }
    fn variants(&mut self, vs: &[Variant]) {
        let x = self.x();
        self.ind += 1;
        for v in vs {
            match v {
                Variant::Elem(e) => self.elem(e),
                Variant::Seq(p) => {
                    self.line(&format!("<{x}sequence>"));
                    self.parts(p);
                    self.line(&format!("</{x}sequence>"));
                }
            }
        }
        self.ind -= 1;
    }
    fn parts(&mut self, ps: &[Particle]) {
        let x = self.x();
        self.ind += 1;
        for p in ps {
            match p {
                Particle::Elem(e) => self.elem(e),
                Particle::Choice { min, max, variants } => {
                    self.line(&format!("<{x}choice{}>", occurs(*min, *max)));
                    self.variants(variants);
                    self.line(&format!("</{x}choice>"));
                }
                Particle::Seq { min, parts } => {
                    self.line(&format!("<{x}sequence{}>", occurs(*min, Max::N(1))));
                    self.parts(parts);
                    self.line(&format!("</{x}sequence>"));
                }
            }
        }
        self.ind -= 1;
    }
    fn elem(&mut self, e: &ElemP) {
        let x = self.x();
        let occ = occurs(e.min, e.max);
        if let Some(g) = &e.refers {
            let q = self.qname(g);
            self.line(&format!("<{x}element ref=\"{q}\"{occ}/>"));
            return;
        }
        let d = e.default.as_ref().map(|d| format!(" default=\"{}\"", esc(d))).unwrap_or_default();
        let form = match e.form {
            None => "",
            Some(true) => " form=\"qualified\"",
            Some(false) => " form=\"unqualified\"",
        };
        self.elem_body(&format!("name=\"{}\"{occ}{d}{form}", e.name), &e.ty, &e.docs);
    }
}

fn occurs(min: u32, max: Max) -> String {
    let mut o = String::new();
    if min != 1 {
        o.push_str(&format!(" minOccurs=\"{min}\""));
    }
    match max {
        Max::N(1) => {}
        Max::N(n) => o.push_str(&format!(" maxOccurs=\"{n}\"")),
        Max::Unbounded => o.push_str(" maxOccurs=\"unbounded\""),
    }
    o
}

pub fn xsd_text(m: &Model, file: usize) -> String {
    let mut p = Printer { m, file, out: String::new(), ind: 0 };
    p.schema();
    p.out
}

/// All files: (path, text).
pub fn xsd_files(m: &Model) -> Vec<(String, String)> {
    (0..m.files.len()).map(|i| (m.files[i].path.clone(), xsd_text(m, i))).collect()
}

// ---------------------------------------------------------------------------------------------
// conforming documents

const ALPHABET: &[&str] = &[
    "a", "b", "Z", "0", "9", " ", "<", ">", "&", "\"", "'", "]]>", "\n", "é", "ß", "漢", "😀", "\u{a0}", "-", "_", "/", "=", ";", "%", "{", "}", "#", "&amp;",
    "x y", "\u{2028}", "\u{fffd}", "<!--", "-->", "<?", "?>", "\u{7f}", "\u{85}",
    "\u{feff}", "\u{200b}", "e\u{301}", "\u{3000}", "\u{202e}", "\u{10ffff}",
];

pub struct Gen<'a> {
    pub m: &'a Model,
    pub rng: &'a mut Rng,
    /// Size control.
    pub depth: usize,
    pub budget: i64,
}

/// How text is made: `attr` because attribute values are normalised differently.
pub fn gen_string(rng: &mut Rng, attr: bool) -> String {
    let n = match rng.below(10) {
        0 => 0,
        1..=6 => rng.range(1, 6),
        7..=8 => rng.range(5, 25),
        _ if rng.below(20000) == 0 => 1_100_000,
        _ if rng.below(400) == 0 => *rng.pick(&[32768, 65535, 65536, 65537, 70000]),
        _ if rng.below(40) == 0 => *rng.pick(&[250, 1000, 1023, 1024, 4095, 4097, 8191, 8192, 8193, 20000]),
        _ => rng.range(20, 200),
    };
    let mut s = String::new();
    if rng.pct(60) {
        for _ in 0..n {
            s.push((b'a' + rng.below(26) as u8) as char);
        }
    } else {
        for _ in 0..n {
            s.push_str(rng.pick(ALPHABET));
        }
    }
    if !attr && rng.pct(3) {
        s = "  \n ".to_string();
    }
    if rng.pct(4) {
        let l = *rng.pick(LOOKALIKES);
        s = match rng.below(4) {
            0 => format!("{l}{s}"),
            1 => format!("{s}{l}"),
            _ => l.to_string(),
        };
    }
    s
}

/// Text that looks like something else.
const LOOKALIKES: &[&str] = &[
    "<!-- -->", "<!--", "-->", "<![CDATA[x]]>", "]]>", "]]", "&lt;", "&amp;amp;", "&#65;", "&nbsp;", "<?x y?>", "?>", "<a/>", "</a>", "xmlns=\"\"", "true", "0", "-0", "NaN", "null", "None", "%20",
    "{}", "{0}", "$1", "\\n", "\\", "'\"'", "\u{feff}x", "a\u{301}", "\u{85}", "\u{2028}", "\u{1f9ea}", "\u{fffd}", " x", "x ", "+1", "1e5", "0x10",
];

pub fn gen_lit(rng: &mut Rng, l: Lit, attr: bool) -> String {
    match l {
        Lit::String | Lit::AnyType => gen_string(rng, attr),
        Lit::Boolean => (*rng.pick(&["true", "false"])).into(),
        Lit::Integer | Lit::Long => match rng.below(6) {
            0 => i64::MAX.to_string(),
            1 => i64::MIN.to_string(),
            2 => "0".into(),
            _ => (rng.next() as i64 >> rng.below(63)).to_string(),
        },
        Lit::NonNeg | Lit::Positive => match rng.below(5) {
            0 => u64::MAX.to_string(),
            1 if l == Lit::NonNeg => "0".into(),
            _ => (rng.next() >> rng.below(63)).max(1).to_string(),
        },
        Lit::Int => match rng.below(6) {
            0 => i32::MAX.to_string(),
            1 => i32::MIN.to_string(),
            2 => "0".into(),
            _ => (rng.next() as i32 >> rng.below(31)).to_string(),
        },
        Lit::Decimal => {
            let v = rng.next() >> rng.range(5, 62);
            let sign = if rng.pct(30) && v > 0 { "-" } else { "" };
            if rng.pct(12) {
                // up to the 28 digits that the type holds
                let digits: String = (0..rng.range(20, 27)).map(|i| (b'0' + if i == 0 { 1 + rng.below(7) as u8 } else { rng.below(10) as u8 }) as char).collect();
                let at = rng.below(digits.len());
                return if at == 0 { format!("{sign}0.{digits}") } else { format!("{sign}{}.{}", &digits[..at], &digits[at..]) };
            }
            if rng.pct(30) {
                format!("{sign}{v}")
            } else {
                format!("{sign}{}.{:0w$}", v, rng.below(1000), w = rng.range(3, 7))
            }
        }
        Lit::Float => {
            let f = match rng.below(5) {
                0 if rng.pct(40) => return (*rng.pick(&["INF", "-INF", "-0"])).into(),
                0 => 0.0,
                1 => (rng.next() % 1000) as f32 / 8.0,
                2 => f32::MAX,
                3 => -((rng.next() % 100000) as f32) * 0.1,
                _ => f32::from_bits((rng.next() as u32) & 0x7eff_ffff),
            };
            format!("{}", if f == 0.0 { 0.0 } else { f })
        }
        Lit::Time => format!("{:02}:{:02}:{:02}", rng.below(24), rng.below(60), rng.below(60)),
        Lit::Date => format!("{}-{:02}-{:02}", rng.range(1900, 2100), rng.range(1, 12), rng.range(1, 28)),
        Lit::DateTime => format!(
            "{}-{:02}-{:02}T{:02}:{:02}:{:02}{}",
            rng.range(1900, 2100),
            rng.range(1, 12),
            rng.range(1, 28),
            rng.below(24),
            rng.below(60),
            rng.below(60),
            rng.pick(&["", "Z", "+02:00"])
        ),
        Lit::Duration => format!("P{}DT{}H", rng.below(100), rng.below(24)),
        Lit::Base64 => (*rng.pick(&["", "QUJD", "AA==", "/+8="])).into(),
        Lit::Hex => (*rng.pick(&["", "00ff", "DEADBEEF"])).into(),
    }
}

impl Gen<'_> {
    /// A conforming document for a global declaration (element or type).
    pub fn root(&mut self, g: &GRef) -> XElem {
        let d = self.m.decl(g).expect("global").clone();
        let mut e = XElem::new(self.m.tns(g.file), &g.name);
        self.decl_into(&d, g.file, &mut e);
        e
    }
    fn decl_into(&mut self, d: &Decl, file: usize, e: &mut XElem) {
        match &d.kind {
            DeclKind::Element(t) => self.type_into(t, file, e),
            DeclKind::Simple(s) => self.text_into(self_simple(s), e),
            DeclKind::Complex(c) => self.complex_into(c, file, e),
        }
    }
    fn text_into(&mut self, k: TextKind, e: &mut XElem) {
        let t = self.text(k, false);
        if !t.is_empty() {
            e.kids.push(XNode::T(t));
        }
    }
    fn text(&mut self, k: TextKind, attr: bool) -> String {
        match k {
            TextKind::Lit(l) => {
                let t = gen_lit(self.rng, l, attr);
                if self.rng.pct(8) {
                    respell(self.rng, l, t, attr)
                } else {
                    t
                }
            }
            TextKind::Enum(v, _) => self.rng.pick(&v).clone(),
            TextKind::Fixed(v) => v,
        }
    }
    fn type_into(&mut self, t: &TypeUse, file: usize, e: &mut XElem) {
        match t {
            TypeUse::Lit(l) => self.text_into(TextKind::Lit(*l), e),
            TypeUse::Fixed(_, v) => self.text_into(TextKind::Fixed(v.clone()), e),
            TypeUse::Untyped => self.text_into(TextKind::Lit(Lit::AnyType), e),
            TypeUse::Simple(s) => self.text_into(self_simple(s), e),
            TypeUse::Complex(c) => self.complex_into(&c.clone(), file, e),
            TypeUse::Named(g) => {
                let d = self.m.decl(g).expect("named type").clone();
                self.decl_into(&d, g.file, e);
            }
        }
    }
    fn complex_into(&mut self, c: &ComplexTy, file: usize, e: &mut XElem) {
        for a in &c.attrs {
            let present = match a.usage {
                Usage::Required => true,
                Usage::Prohibited => false,
                _ => self.rng.pct(60),
            };
            if present {
                let k = attr_kind(self.m, a);
                let v = self.text(k, true);
                e.attrs.push(XAttr { ns: None, name: a.name.clone(), val: v });
            }
        }
        match &c.body {
            Body::Empty => {}
            Body::Seq { min, max, parts } => {
                let n = self.count(*min, *max);
                for _ in 0..n {
                    self.parts_into(parts, file, e);
                }
            }
            Body::OptAll(_) if self.rng.pct(30) => {}
            Body::All(es) | Body::OptAll(es) => {
                let mut order: Vec<usize> = (0..es.len()).collect();
                if self.rng.pct(60) {
                    self.rng.shuffle(&mut order);
                }
                for i in order {
                    self.elem_into(&es[i], file, e, false);
                }
            }
            Body::Choice(vs) => self.variant_into(vs, file, e),
            Body::SimpleContent(t) => self.type_into(t, file, e),
            Body::Extension { base, seq } => {
                let d = self.m.decl(base).expect("base").clone();
                self.decl_into(&d, base.file, e);
                if let Some((min, parts)) = seq {
                    if *min > 0 || self.rng.pct(60) {
                        self.parts_into(parts, file, e);
                    }
                }
            }
        }
    }
    fn count(&mut self, min: u32, max: Max) -> usize {
        self.budget -= 1;
        let min = min as usize;
        if self.budget < 0 {
            return min;
        }
        if self.depth > 6 {
            // only types that contain themselves get here with something left
            let n = if self.rng.pct(93) { 1 } else { 2 };
            return if self.depth < 120 { max.bound().min(n).max(min) } else { min };
        }
        let more = match self.rng.below(400) {
            0 if self.depth <= 2 && self.rng.below(300) == 0 => *self.rng.pick(&[6000, 20000]),
            0 if self.depth <= 2 && self.rng.below(25) == 0 => 1100,
            0 => 90,
            1..=6 => 14,
            _ => 3,
        };
        let hi = max.bound().min(min + more);
        match self.rng.below(10) {
            0..=2 => min.min(hi),
            _ => self.rng.range(min.min(hi), hi),
        }
    }
    fn parts_into(&mut self, parts: &[Particle], file: usize, e: &mut XElem) {
        for p in parts {
            match p {
                Particle::Elem(p) => self.elem_into(p, file, e, false),
                Particle::Choice { min, max, variants } => {
                    for _ in 0..self.count(*min, *max) {
                        self.variant_into(variants, file, e);
                    }
                }
                Particle::Seq { min, parts } => {
                    if self.count(*min, Max::N(1)) > 0 {
                        self.parts_into(parts, file, e);
                    }
                }
            }
        }
    }
    fn variant_into(&mut self, vs: &[Variant], file: usize, e: &mut XElem) {
        if vs.is_empty() {
            return;
        }
        let v = vs[self.rng.below(vs.len())].clone();
        match v {
            Variant::Elem(p) => self.elem_into(&p, file, e, true),
            Variant::Seq(ps) => self.parts_into(&ps, file, e),
        }
    }
    fn elem_into(&mut self, p: &ElemP, file: usize, e: &mut XElem, at_least_one: bool) {
        let mut n = self.count(p.min, p.max);
        if at_least_one {
            n = n.max(1);
        }
        for _ in 0..n {
            let (ns, name) = self.m.elem_name(file, p);
            let mut c = XElem::new(ns, &name);
            self.depth += 1;
            match &p.refers {
                Some(g) => {
                    let d = self.m.decl(g).expect("ref").clone();
                    self.decl_into(&d, g.file, &mut c);
                }
                None => self.type_into(&p.ty, file, &mut c),
            }
            self.depth -= 1;
            e.kids.push(XNode::E(c));
        }
    }
}

#[derive(Clone, Debug)]
pub enum TextKind {
    Lit(Lit),
    Enum(Vec<String>, Lit),
    Fixed(String),
}

fn self_simple(s: &SimpleTy) -> TextKind {
    if s.enums.is_empty() {
        TextKind::Lit(s.base)
    } else {
        TextKind::Enum(s.enums.clone(), s.base)
    }
}

pub fn attr_kind(m: &Model, a: &AttrModel) -> TextKind {
    match &a.ty {
        TypeUse::Lit(l) => TextKind::Lit(*l),
        TypeUse::Fixed(_, v) => TextKind::Fixed(v.clone()),
        TypeUse::Simple(s) => self_simple(s),
        TypeUse::Named(g) => match m.decl(g).map(|d| &d.kind) {
            Some(DeclKind::Simple(s)) => self_simple(s),
            _ => TextKind::Lit(Lit::String),
        },
        _ => TextKind::Lit(Lit::String),
    }
}

// ---------------------------------------------------------------------------------------------
// reference decoder

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// Conforms; the document in canonical form (attributes and unordered members in schema order).
    Valid(XElem),
    /// Breaks one of the rules the property lists.
    Broken(String),
    /// Does not conform in a way no rule is claimed for.
    Unsure(String),
}

struct Dec<'a> {
    m: &'a Model,
    unsure: Option<String>,
    /// Elements with an unordered group as content.
    all: Vec<*const XElem>,
}
type R<T> = Result<T, String>;

/// Conforms, but is rejected (listed as a finding).
pub const EMPTY_ALTERNATIVE: &str = "nothing in place of an optional alternative";

pub fn judge(m: &Model, g: &GRef, e: &XElem) -> Verdict {
    let mut d = Dec { m, unsure: None, all: vec![] };
    let r = d.root(g, e);
    match (r, d.unsure) {
        // An unclaimed deviation is either rejected or skipped; a broken rule stays broken either way.
        (Err(b), _) => Verdict::Broken(b),
        (Ok(_), Some(u)) => Verdict::Unsure(u),
        (Ok(x), None) => Verdict::Valid(x),
    }
}

/// Numbers (in document order) of the elements whose content is an unordered group.
pub fn unordered(m: &Model, g: &GRef, e: &XElem) -> Vec<usize> {
    let mut d = Dec { m, unsure: None, all: vec![] };
    let _ = d.root(g, e);
    fn go(e: &XElem, n: &mut usize, all: &[*const XElem], out: &mut Vec<usize>) {
        if all.contains(&(e as *const XElem)) {
            out.push(*n);
        }
        *n += 1;
        for k in e.elems() {
            go(k, n, all, out);
        }
    }
    let mut out = vec![];
    go(e, &mut 0, &d.all, &mut out);
    out
}

struct Cur<'a> {
    kids: Vec<&'a XElem>,
    pos: usize,
}
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a XElem> {
        self.kids.get(self.pos).copied()
    }
}

fn is(e: &XElem, n: &(Option<String>, String)) -> bool {
    e.ns == n.0 && e.name == n.1
}

impl Dec<'_> {
    fn unsure(&mut self, s: impl Into<String>) {
        if self.unsure.is_none() {
            self.unsure = Some(s.into());
        }
    }
    fn root(&mut self, g: &GRef, e: &XElem) -> R<XElem> {
        if e.ns != self.m.tns(g.file) || e.name != g.name {
            return Err("wrong root element".into());
        }
        let mut out = XElem::new(e.ns.clone(), &e.name);
        let d = self.m.decl(g).expect("global").clone();
        self.element(Target::Decl(&d, g.file), e, &mut out)?;
        Ok(out)
    }
    /// Decodes a whole element: attributes, content, leftovers.
    fn element(&mut self, t: Target, e: &XElem, out: &mut XElem) -> R<()> {
        let mut cur = Cur { kids: e.elems(), pos: 0 };
        let mut seen: Vec<String> = Vec::new();
        let texty = self.target(t, e, &mut cur, &mut seen, out)?;
        for a in &e.attrs {
            if a.ns.is_some() || !seen.contains(&a.name) {
                self.unsure(format!("unknown attribute {}", a.name));
            }
        }
        if !texty {
            if cur.pos < cur.kids.len() {
                self.unsure(format!("extra child {}", cur.kids[cur.pos].name));
            }
            if !e.text().trim_matches(|c| " \t\r\n".contains(c)).is_empty() {
                self.unsure("text between elements");
            }
        }
        Ok(())
    }
    fn target(&mut self, t: Target, e: &XElem, cur: &mut Cur, seen: &mut Vec<String>, out: &mut XElem) -> R<bool> {
        match t {
            Target::Decl(d, file) => match &d.kind {
                DeclKind::Element(t) => self.target(Target::Type(t, file), e, cur, seen, out),
                DeclKind::Simple(s) => self.text(self_simple(s), e, out),
                DeclKind::Complex(c) => self.complex(c, file, e, cur, seen, out),
            },
            Target::Type(t, file) => match t {
                TypeUse::Lit(l) => self.text(TextKind::Lit(*l), e, out),
                TypeUse::Fixed(_, v) => self.text(TextKind::Fixed(v.clone()), e, out),
                TypeUse::Untyped => self.text(TextKind::Lit(Lit::AnyType), e, out),
                TypeUse::Simple(s) => self.text(self_simple(s), e, out),
                TypeUse::Complex(c) => self.complex(c, file, e, cur, seen, out),
                TypeUse::Named(g) => {
                    let d = self.m.decl(g).expect("named type").clone();
                    self.target(Target::Decl(&d, g.file), e, cur, seen, out)
                }
            },
        }
    }
    fn text(&mut self, k: TextKind, e: &XElem, out: &mut XElem) -> R<bool> {
        if e.has_elems() {
            self.unsure("elements inside text content");
            return Ok(true);
        }
        let t = self.literal(k, &e.text())?;
        if !t.is_empty() {
            out.kids.push(XNode::T(t));
        }
        Ok(true)
    }
    fn literal(&mut self, k: TextKind, t: &str) -> R<String> {
        match k {
            TextKind::Fixed(v) => {
                if v == t {
                    Ok(v)
                } else {
                    Err(format!("text {t:?} is not the fixed value {v:?}"))
                }
            }
            TextKind::Enum(v, base) => {
                if v.iter().any(|x| x == t) {
                    return Ok(t.to_string());
                }
                if base.stringy() || !v.iter().any(|x| x.trim() == t.trim()) {
                    return Err(format!("text {t:?} is no listed enumeration value"));
                }
                self.unsure("other spelling of an enumeration value");
                Ok(t.to_string())
            }
            TextKind::Lit(l) => match lit_says(l, t) {
                LitSays::Value(v) => Ok(v),
                LitSays::NoLiteral => Err(format!("text {t:?} is not a literal of {}", l.xsd())),
                LitSays::Unsure => {
                    self.unsure(format!("unusual spelling {t:?} of {}", l.xsd()));
                    Ok(t.to_string())
                }
            },
        }
    }
    fn complex(&mut self, c: &ComplexTy, file: usize, e: &XElem, cur: &mut Cur, seen: &mut Vec<String>, out: &mut XElem) -> R<bool> {
        for a in &c.attrs {
            if a.usage == Usage::Prohibited {
                continue;
            }
            seen.push(a.name.clone());
            match e.attrs.iter().find(|x| x.ns.is_none() && x.name == a.name) {
                Some(x) => {
                    let v = self.literal(attr_kind(self.m, a), &x.val)?;
                    out.attrs.push(XAttr { ns: None, name: a.name.clone(), val: v });
                }
                None if a.usage == Usage::Required => {
                    return Err(format!("required attribute {} is missing", a.name));
                }
                None => {}
            }
        }
        match &c.body {
            Body::Empty => Ok(false),
            Body::Seq { min, max, parts } => {
                self.group(*min, *max, &|d: &Dec, x| d.first_parts(parts, file, x), &mut |d, cur, out| d.parts(parts, file, cur, out), cur, out)?;
                Ok(false)
            }
            Body::OptAll(es) if !cur.peek().is_some_and(|x| es.iter().any(|p| is(x, &self.m.elem_name(file, p)))) => {
                if !cur.kids.is_empty() {
                    self.unsure("extra child in unordered group");
                }
                Ok(false)
            }
            Body::All(es) | Body::OptAll(es) => {
                self.all.push(e as *const XElem);
                let mut used = vec![false; cur.kids.len()];
                for p in es {
                    let n = self.m.elem_name(file, p);
                    match (0..cur.kids.len()).find(|i| !used[*i] && is(cur.kids[*i], &n)) {
                        Some(i) => {
                            used[i] = true;
                            let k = self.child(p, file, cur.kids[i])?;
                            out.kids.push(XNode::E(k));
                        }
                        None if p.min == 0 => {}
                        None => return Err(format!("required element {} is missing", n.1)),
                    }
                }
                if used.iter().any(|u| !u) {
                    self.unsure("extra child in unordered group");
                }
                cur.pos = cur.kids.len();
                Ok(false)
            }
            Body::Choice(vs) => {
                self.choice(vs, file, cur, out)?;
                Ok(false)
            }
            Body::SimpleContent(t) => self.target(Target::Type(t, file), e, cur, seen, out),
            Body::Extension { base, seq } => {
                let d = self.m.decl(base).expect("base").clone();
                let texty = self.target(Target::Decl(&d, base.file), e, cur, seen, out)?;
                if let Some((min, parts)) = seq {
                    self.group(*min, Max::N(1), &|d: &Dec, x| d.first_parts(parts, file, x), &mut |d, cur, out| d.parts(parts, file, cur, out), cur, out)?;
                }
                Ok(texty)
            }
        }
    }
    #[allow(clippy::type_complexity)]
    fn group(
        &mut self,
        min: u32,
        max: Max,
        first: &dyn Fn(&Dec, &XElem) -> bool,
        body: &mut dyn FnMut(&mut Self, &mut Cur, &mut XElem) -> R<()>,
        cur: &mut Cur,
        out: &mut XElem,
    ) -> R<()> {
        if !max.many() {
            if min == 0 && !cur.peek().map(|x| first(self, x)).unwrap_or(false) {
                return Ok(());
            }
            return body(self, cur, out);
        }
        let mut n = 0usize;
        while cur.peek().map(|x| first(self, x)).unwrap_or(false) {
            body(self, cur, out)?;
            n += 1;
        }
        if n < min as usize || n > max.bound() {
            self.unsure("number of repetitions");
        }
        Ok(())
    }
    fn first_parts(&self, parts: &[Particle], file: usize, x: &XElem) -> bool {
        for p in parts {
            match p {
                Particle::Elem(p) => {
                    if is(x, &self.m.elem_name(file, p)) {
                        return true;
                    }
                    if p.min > 0 {
                        return false;
                    }
                }
                Particle::Choice { min, variants, .. } => {
                    if self.first_variants(variants, file, x) {
                        return true;
                    }
                    if *min > 0 && !variants.iter().any(|v| self.nullable_variant(v)) {
                        return false;
                    }
                }
                Particle::Seq { min, parts } => {
                    if self.first_parts(parts, file, x) {
                        return true;
                    }
                    if *min > 0 && !self.nullable(parts) {
                        return false;
                    }
                }
            }
        }
        false
    }
    fn nullable(&self, parts: &[Particle]) -> bool {
        parts.iter().all(|p| match p {
            Particle::Elem(p) => p.min == 0,
            Particle::Choice { min, variants, .. } => *min == 0 || variants.iter().any(|v| self.nullable_variant(v)),
            Particle::Seq { min, parts } => *min == 0 || self.nullable(parts),
        })
    }
    fn nullable_variant(&self, v: &Variant) -> bool {
        match v {
            Variant::Elem(p) => p.min == 0,
            Variant::Seq(p) => self.nullable(p),
        }
    }
    fn first_variants(&self, vs: &[Variant], file: usize, x: &XElem) -> bool {
        vs.iter().any(|v| match v {
            Variant::Elem(p) => is(x, &self.m.elem_name(file, p)),
            Variant::Seq(ps) => self.first_parts(ps, file, x),
        })
    }
    fn parts(&mut self, parts: &[Particle], file: usize, cur: &mut Cur, out: &mut XElem) -> R<()> {
        for p in parts {
            match p {
                Particle::Elem(p) => self.elem(p, file, cur, out)?,
                Particle::Choice { min, max, variants } => {
                    self.group(
                        *min,
                        *max,
                        &|d: &Dec, x| d.first_variants(variants, file, x),
                        &mut |d, cur, out| d.choice(variants, file, cur, out),
                        cur,
                        out,
                    )?;
                }
                Particle::Seq { min, parts } => {
                    self.group(
                        *min,
                        Max::N(1),
                        &|d: &Dec, x| d.first_parts(parts, file, x),
                        &mut |d, cur, out| d.parts(parts, file, cur, out),
                        cur,
                        out,
                    )?;
                }
            }
        }
        Ok(())
    }
    fn elem(&mut self, p: &ElemP, file: usize, cur: &mut Cur, out: &mut XElem) -> R<()> {
        let n = self.m.elem_name(file, p);
        if !p.max.many() {
            match cur.peek() {
                Some(x) if is(x, &n) => {
                    cur.pos += 1;
                    let k = self.child(p, file, x)?;
                    out.kids.push(XNode::E(k));
                }
                _ if p.min == 0 => {}
                _ => return Err(format!("required element {} is missing in its place", n.1)),
            }
            return Ok(());
        }
        let mut c = 0usize;
        while let Some(x) = cur.peek() {
            if !is(x, &n) {
                break;
            }
            cur.pos += 1;
            c += 1;
            let k = self.child(p, file, x)?;
            out.kids.push(XNode::E(k));
        }
        if c < p.min as usize || c > p.max.bound() {
            self.unsure(format!("number of {} elements", n.1));
        }
        Ok(())
    }
    fn child(&mut self, p: &ElemP, file: usize, x: &XElem) -> R<XElem> {
        let mut out = XElem::new(x.ns.clone(), &x.name);
        match &p.refers {
            Some(g) => {
                let d = self.m.decl(g).expect("ref").clone();
                self.element(Target::Decl(&d, g.file), x, &mut out)?;
            }
            None => self.element(Target::Type(&p.ty, file), x, &mut out)?,
        }
        Ok(out)
    }
    fn choice(&mut self, vs: &[Variant], file: usize, cur: &mut Cur, out: &mut XElem) -> R<()> {
        if let Some(x) = cur.peek() {
            for v in vs {
                match v {
                    Variant::Elem(p) if is(x, &self.m.elem_name(file, p)) => return self.elem(p, file, cur, out),
                    Variant::Seq(ps) if self.first_parts(ps, file, x) => return self.parts(ps, file, cur, out),
                    _ => {}
                }
            }
        }
        if vs.iter().any(|v| self.nullable_variant(v)) {
            self.unsure(EMPTY_ALTERNATIVE);
            return Ok(());
        }
        Err("no alternative of a required choice".into())
    }
}

enum Target<'a> {
    Decl(&'a Decl, usize),
    Type(&'a TypeUse, usize),
}

/// What a text says as a literal of a type, in the spelling that the encoder uses.
#[derive(Debug, Clone, PartialEq)]
pub enum LitSays {
    Value(String),
    NoLiteral,
    /// No claim: not representable, or allowed by one version of the specification only.
    Unsure,
}

/// `[+-]?(d+(.d*)?|.d+)` as (negative, integer digits, fraction digits).
fn decimal_parts(t: &str) -> Option<(bool, &str, &str)> {
    let body = t.strip_prefix(['+', '-']).unwrap_or(t);
    let (i, f) = body.split_once('.').unwrap_or((body, ""));
    let digits = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    (digits(i) && digits(f) && !(i.is_empty() && f.is_empty())).then_some((t.starts_with('-'), i, f))
}

pub fn lit_says(l: Lit, t: &str) -> LitSays {
    use LitSays::*;
    let tr = t.trim_matches(|c| " \t\r\n".contains(c));
    match l {
        Lit::Boolean => match tr {
            "true" | "1" => Value("true".into()),
            "false" | "0" => Value("false".into()),
            _ => NoLiteral,
        },
        Lit::Integer | Lit::Long | Lit::Int | Lit::NonNeg | Lit::Positive => {
            let Some((neg, digits, _)) = decimal_parts(tr).filter(|_| !tr.contains('.')) else { return NoLiteral };
            let digits = digits.trim_start_matches('0');
            let v = if digits.is_empty() { Some(0) } else { digits.parse::<i128>().ok().map(|v| if neg { -v } else { v }) };
            let within = |lo: i128, hi: i128| v.filter(|v| (lo..=hi).contains(v)).map(|v| v.to_string());
            match l {
                Lit::Int => within(i32::MIN as i128, i32::MAX as i128).map_or(NoLiteral, Value),
                Lit::Long => within(i64::MIN as i128, i64::MAX as i128).map_or(NoLiteral, Value),
                Lit::Integer => within(i64::MIN as i128, i64::MAX as i128).map_or(Unsure, Value),
                _ => match v {
                    Some(v) if v < 0 => NoLiteral,
                    None if neg => NoLiteral,
                    // -0 is a literal, but 0 is no positive integer
                    Some(0) if neg || l == Lit::Positive => Unsure,
                    _ => within(0, u64::MAX as i128).map_or(Unsure, Value),
                },
            }
        }
        Lit::Decimal => {
            let Some((neg, i, f)) = decimal_parts(tr) else { return NoLiteral };
            let i = i.trim_start_matches('0');
            if i.len() + f.len() > 27 {
                return Unsure; // may not be representable
            }
            let zero = (i.to_string() + f).bytes().all(|b| b == b'0');
            let sign = if neg && !zero { "-" } else { "" };
            let i = if i.is_empty() { "0" } else { i };
            Value(if f.is_empty() { format!("{sign}{i}") } else { format!("{sign}{i}.{f}") })
        }
        Lit::Float => {
            match tr {
                "INF" | "-INF" | "NaN" => return Value(tr.into()),
                "+INF" => return Unsure,
                _ => {}
            }
            let (m, e) = tr.split_once(['e', 'E']).unwrap_or((tr, "0"));
            let exp = e.strip_prefix(['+', '-']).unwrap_or(e);
            if decimal_parts(m).is_none() || exp.is_empty() || !exp.bytes().all(|b| b.is_ascii_digit()) {
                return NoLiteral;
            }
            match tr.parse::<f32>() {
                Ok(f) if f.is_finite() => Value(format!("{f}")),
                _ => Unsure,
            }
        }
        _ => Value(t.into()),
    }
}

/// Another spelling of the same literal.
pub fn respell(rng: &mut Rng, l: Lit, t: String, attr: bool) -> String {
    if l.stringy() {
        return t;
    }
    let mut t = t;
    let signed = t.starts_with('-');
    match l {
        Lit::Boolean => t = (if t == "true" { "1" } else { "0" }).into(),
        Lit::Float if t.contains(|c: char| c.is_alphabetic()) => {}
        _ => match rng.below(4) {
            0 if !signed => t = format!("+{t}"),
            1 if !signed => t = format!("{}{t}", "0".repeat(rng.range(1, 4) as usize)),
            2 if signed => t = format!("-0{}", &t[1..]),
            3 if l == Lit::Decimal && !t.contains('.') => t.push('.'),
            3 if l == Lit::Decimal && t.starts_with("0.") => t = t[1..].to_string(),
            3 if l == Lit::Float => {
                if let Ok(f) = t.parse::<f32>() {
                    t = format!("{f:e}");
                }
            }
            _ => {}
        },
    }
    if rng.pct(40) {
        let pads: &[&str] = if attr { &["", " ", "  ", " ", "\n", "\t"] } else { &["", " ", "\n", "\n    ", "\t", "\r"] };
        t = format!("{}{t}{}", rng.pick(pads), rng.pick(pads));
    }
    t
}
