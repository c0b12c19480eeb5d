//! The compiled corpus, sinks with faults, and comparison helpers.
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

use glue::{EmitterConfig, FromXmlError, Root, Val, WriteError};
use serde::{Deserialize, Serialize};
use simcore::model::*;
use simcore::rng::Rng;
use simcore::sys;
use simcore::xmltree::{self, XElem, XNode};

pub struct Schema {
    pub id: &'static str,
    pub model: Model,
    pub roots: Vec<(GRef, &'static Root)>,
}

pub fn corpus() -> &'static [Schema] {
    static C: OnceLock<Vec<Schema>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        for (id, json, roots) in all_schemas() {
            let model: Model = serde_json::from_str(json).expect("model");
            let roots = roots
                .iter()
                .map(|r| {
                    let file = model.files.iter().position(|f| f.decls.iter().any(|d| d.name == r.name)).expect("declared");
                    (GRef { file, name: r.name.to_string() }, r)
                })
                .collect();
            v.push(Schema { id, model, roots });
        }
        v
    })
}

type Row = (&'static str, &'static str, &'static [Root]);
fn all_schemas() -> Vec<Row> {
    let mut v: Vec<Row> = Vec::new();
    v.extend(corpus0::SCHEMAS);
    v.extend(corpus1::SCHEMAS);
    v.extend(corpus2::SCHEMAS);
    v.extend(corpus3::SCHEMAS);
    v.extend(corpus4::SCHEMAS);
    v.extend(corpus5::SCHEMAS);
    v.sort_by_key(|r| r.0);
    v
}

/// Which generated type a scenario is about.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Target {
    pub schema: String,
    pub root: String,
}

pub struct Found {
    pub schema: &'static Schema,
    pub gref: &'static GRef,
    pub root: &'static Root,
}

impl Target {
    pub fn pick(rng: &mut Rng) -> Target {
        let s = &corpus()[rng.below(corpus().len())];
        // elements and complex types say more than simple ones
        for _ in 0..3 {
            let (g, r) = &s.roots[rng.below(s.roots.len())];
            if !matches!(s.model.decl(g).unwrap().kind, DeclKind::Simple(_)) {
                return Target { schema: s.id.into(), root: r.name.into() };
            }
        }
        let (_, r) = &s.roots[rng.below(s.roots.len())];
        Target { schema: s.id.into(), root: r.name.into() }
    }
    pub fn find(&self) -> Option<Found> {
        let schema = corpus().iter().find(|s| s.id == self.schema)?;
        let (gref, root) = schema.roots.iter().find(|(_, r)| r.name == self.root)?;
        Some(Found { schema, gref, root })
    }
}

impl Found {
    pub fn gen(&self, rng: &mut Rng, budget: i64) -> XElem {
        Gen { m: &self.schema.model, rng, depth: 0, budget }.root(self.gref)
    }
    pub fn judge(&self, e: &XElem) -> Verdict {
        judge(&self.schema.model, self.gref, e)
    }
    /// Decodes; a panic is an Err of the outer result.
    pub fn decode(&self, s: &str) -> Result<Result<Box<dyn Val>, FromXmlError>, String> {
        catch_unwind(AssertUnwindSafe(|| (self.root.from)(s))).map_err(sys::panic_text)
    }
}

pub fn to_xml(v: &dyn Val) -> Result<Result<Vec<u8>, WriteError>, String> {
    catch_unwind(AssertUnwindSafe(|| v.xml())).map_err(sys::panic_text)
}

/// Whitespace between elements carries nothing; attributes are a set.
pub fn canon(e: &XElem) -> XElem {
    let mut o = XElem::new(e.ns.clone(), &e.name);
    o.attrs = e.attrs.clone();
    o.attrs.sort_by(|a, b| (&a.ns, &a.name).cmp(&(&b.ns, &b.name)));
    let elems = e.has_elems();
    for k in &e.kids {
        match k {
            XNode::E(c) => o.kids.push(XNode::E(canon(c))),
            XNode::T(t) => {
                if !t.is_empty() && !(elems && blank(t)) {
                    if let Some(XNode::T(p)) = o.kids.last_mut() {
                        p.push_str(t);
                    } else {
                        o.kids.push(XNode::T(t.clone()));
                    }
                }
            }
        }
    }
    o
}
pub fn blank(t: &str) -> bool {
    t.chars().all(|c| " \t\r\n".contains(c))
}

/// Has text that the XML writer underneath does not escape (known, see DESIGN.md).
pub fn unwritable(e: &XElem) -> bool {
    e.attrs.iter().any(|a| a.val.contains('\t'))
        || e.kids.iter().any(|k| match k {
            XNode::E(c) => unwritable(c),
            XNode::T(t) => t.contains('\r'),
        })
}

/// Equal, except that an indenting writer cannot be told apart from text that is only white space
/// when an element has no element children: there the text must be exact.
pub fn same_tree(a: &XElem, b: &XElem) -> bool {
    canon(a) == canon(b)
}

pub fn diff(a: &XElem, b: &XElem) -> String {
    let (a, b) = (canon(a), canon(b));
    fn go(a: &XElem, b: &XElem, path: &str) -> Option<String> {
        let p = format!("{path}/{}", a.name);
        if a.ns != b.ns || a.name != b.name {
            return Some(format!("{p}: element {:?} instead of {:?}", (&b.ns, &b.name), (&a.ns, &a.name)));
        }
        if a.attrs != b.attrs {
            return Some(format!("{p}: attributes {:?} instead of {:?}", short(&format!("{:?}", b.attrs)), short(&format!("{:?}", a.attrs))));
        }
        if a.text() != b.text() {
            return Some(format!("{p}: text {:?} instead of {:?}", short(&b.text()), short(&a.text())));
        }
        let (x, y) = (a.elems(), b.elems());
        for (c, d) in x.iter().zip(&y) {
            if let Some(s) = go(c, d, &p) {
                return Some(s);
            }
        }
        if x.len() != y.len() {
            return Some(format!("{p}: {} child elements instead of {}", y.len(), x.len()));
        }
        None
    }
    go(&a, &b, "").unwrap_or_else(|| "order of text and elements".into())
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 160 {
        format!("{}...", s.chars().take(160).collect::<String>())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------------------------------------
// emitter configurations

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Cfg {
    pub indent: bool,
    pub tabs: bool,
    pub crlf: bool,
    pub expand_empty: bool,
    pub pad: bool,
}
impl Cfg {
    pub fn pick(rng: &mut Rng) -> Cfg {
        if rng.pct(40) {
            return Cfg::default_writer();
        }
        let indent = rng.pct(50);
        // indenting with expanded empty elements puts a line break into every empty text: the
        // caller of xml-rs asks for other text then
        Cfg { indent, tabs: rng.pct(30), crlf: rng.pct(30), expand_empty: !indent && rng.pct(60), pad: rng.pct(30) }
    }
    /// What the generated `to_xml` uses.
    pub fn default_writer() -> Cfg {
        Cfg { indent: true, tabs: false, crlf: false, expand_empty: false, pad: false }
    }
    pub fn emitter(self) -> EmitterConfig {
        let mut c = EmitterConfig::new().perform_indent(self.indent);
        if self.tabs {
            c = c.indent_string("\t");
        }
        if self.crlf {
            c = c.line_separator("\r\n");
        }
        if self.expand_empty {
            c = c.normalize_empty_elements(false);
        }
        if self.pad {
            c = c.pad_self_closing(false);
        }
        c
    }
}

/// The tag the generated `to_xml` writes for the root element.
pub fn root_tag(doc: &str) -> Option<String> {
    let mut rest = doc;
    loop {
        let i = rest.find('<')?;
        rest = &rest[i + 1..];
        if !rest.starts_with(['?', '!']) {
            let n = rest.find(|c: char| c.is_whitespace() || c == '>' || c == '/')?;
            return Some(rest[..n].to_string());
        }
    }
}

pub fn stream(v: &dyn Val, root: &str, cfg: Cfg, sink: &mut dyn Write) -> Result<Option<Result<(), WriteError>>, String> {
    catch_unwind(AssertUnwindSafe(|| v.write_to(root, cfg.emitter(), sink))).map_err(sys::panic_text)
}

// ---------------------------------------------------------------------------------------------
// sinks

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SinkAct {
    Short(u32),
    Eintr,
    /// Accepts nothing (Ok(0)).
    Zero,
    /// Error by kind: index into KINDS.
    Err(u8),
    /// Error by errno.
    Os(i32),
    /// Accepts part of the data, the next call fails.
    Torn(u32),
    /// The sink panics.
    Panic,
}

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::StorageFull,
    io::ErrorKind::WriteZero,
    io::ErrorKind::NotConnected,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::Unsupported,
    io::ErrorKind::QuotaExceeded,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::Deadlock,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::AddrInUse,
];

impl SinkAct {
    pub fn name(&self) -> &'static str {
        match self {
            SinkAct::Short(_) => "sink_short_write",
            SinkAct::Eintr => "sink_interrupted",
            SinkAct::Zero => "sink_zero_write",
            SinkAct::Err(2) => "sink_would_block",
            SinkAct::Err(_) => "sink_error",
            SinkAct::Os(28) => "sink_disk_full",
            SinkAct::Os(_) => "sink_os_error",
            SinkAct::Torn(_) => "sink_torn_write",
            SinkAct::Panic => "sink_panic",
        }
    }
    pub fn harmless(rng: &mut Rng) -> SinkAct {
        if rng.pct(60) {
            SinkAct::Short(rng.range(1, 5) as u32)
        } else {
            SinkAct::Eintr
        }
    }
    pub fn fatal(rng: &mut Rng) -> SinkAct {
        match rng.below(6) {
            0 => SinkAct::Zero,
            1 => SinkAct::Os(*rng.pick(&[28, 5, 32, 11, 122, 12, 27, 104, 110, 9, 1, 35, 116])),
            2 => SinkAct::Torn(rng.range(1, 4) as u32),
            _ => SinkAct::Err(rng.below(KINDS.len()) as u8),
        }
    }
}

/// A sink that follows a fault plan: (write call, what happens at that call).
pub struct Sink {
    pub got: Vec<u8>,
    pub plan: Vec<(u32, SinkAct)>,
    pub calls: u32,
    pub flushes: u32,
    /// Fault fired at which the write must give up: number of accepted bytes then, and the error.
    pub fatal: Option<(usize, Fatal)>,
    pub fired: Vec<&'static str>,
    pub torn: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fatal {
    Zero,
    Marked(String),
    Os(i32),
}

impl Sink {
    pub fn new(plan: &[(u32, SinkAct)]) -> Sink {
        Sink { got: Vec::new(), plan: plan.to_vec(), calls: 0, flushes: 0, fatal: None, fired: Vec::new(), torn: false }
    }
    fn die(&mut self, f: Fatal) {
        if self.fatal.is_none() {
            self.fatal = Some((self.got.len(), f));
        }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        sys::yield_point(6);
        sys::outside(|| {
            let c = self.calls;
            self.calls += 1;
            if self.torn {
                self.torn = false;
                self.die(Fatal::Marked(format!("torn#{c}")));
                return Err(io::Error::new(io::ErrorKind::Other, format!("torn#{c}")));
            }
            let act = self.plan.iter().find(|(n, _)| *n == c).map(|p| p.1.clone());
            // a write of nothing cannot be cut, and Ok(0) is its proper answer
            if b.is_empty() {
                if !matches!(act, Some(SinkAct::Err(_) | SinkAct::Os(_))) {
                    return Ok(0);
                }
            }
            let Some(act) = act else {
                self.got.extend_from_slice(b);
                return Ok(b.len());
            };
            self.fired.push(act.name());
            match act {
                SinkAct::Short(n) => {
                    let n = (n.max(1) as usize).min(b.len());
                    self.got.extend_from_slice(&b[..n]);
                    Ok(n)
                }
                SinkAct::Eintr => Err(io::Error::from(io::ErrorKind::Interrupted)),
                SinkAct::Zero => {
                    self.die(Fatal::Zero);
                    Ok(0)
                }
                SinkAct::Err(k) => {
                    let k = KINDS[k as usize % KINDS.len()];
                    self.die(Fatal::Marked(format!("sim#{c}")));
                    Err(io::Error::new(k, format!("sim#{c}")))
                }
                SinkAct::Os(n) => {
                    self.die(Fatal::Os(n));
                    Err(io::Error::from_raw_os_error(n))
                }
                SinkAct::Torn(n) => {
                    let n = (n.max(1) as usize).min(b.len());
                    self.got.extend_from_slice(&b[..n]);
                    self.torn = true;
                    Ok(n)
                }
                SinkAct::Panic => std::panic::panic_any("sink panic"),
            }
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.torn {
            self.torn = false;
            self.die(Fatal::Marked("torn#flush".into()));
            return Err(io::Error::new(io::ErrorKind::Other, "torn#flush"));
        }
        Ok(())
    }
}

pub fn is_that_error(e: &WriteError, f: &Fatal) -> bool {
    let WriteError::Io(io) = e else { return false };
    match f {
        Fatal::Zero => io.kind() == io::ErrorKind::WriteZero,
        Fatal::Marked(m) => io.to_string().contains(m.as_str()),
        Fatal::Os(n) => io.raw_os_error() == Some(*n),
    }
}

pub fn parse_bytes(b: &[u8]) -> Result<XElem, String> {
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    xmltree::parse(s)
}
