//! C10: attributes and namespaces land on exactly the element they were set for.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde::{Deserialize, Serialize};
use simcore::rng::{hash_bytes, Rng};
use simcore::run::{Env, Outcome, Prop};
use simcore::sys;
use xsd::xml::writer::{Error as WriteError, EventWriter, XmlEvent};
use xsd::Context;

use crate::common::{is_that_error, short, Cfg, Sink, SinkAct};

#[derive(Serialize, Deserialize)]
pub struct Sc {
    cfg: Cfg,
    root: El,
    plan: Vec<(u32, SinkAct)>,
    /// Also what the XML writer does not escape (known findings; never generated).
    #[serde(default)]
    raw: bool,
}

/// One element: what happens between the creation of its context and its start tag, and inside it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct El {
    name: String,
    before: Vec<Op>,
    start: Via,
    inside: Vec<In>,
    end: Via,
    /// Calls after the start tag that must not reach this element's tag any more: (attribute) kept for nobody.
    unused: Vec<Op>,
    /// The context of the sibling before starts this element too.
    #[serde(default)]
    again: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// (levels of wrapping, name, value)
    Attr(u8, String, String),
    Ns(u8, String, String),
    DefaultNs(u8, String),
    /// Start and end through a wrapping context: nothing is written.
    VirtualTags(u8),
    /// A context that is created, given attributes and dropped without being started.
    Dropped(Vec<Op>),
    /// All of them through one wrapping context of that many levels.
    Group(u8, Vec<Op>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Via {
    /// Virtual start/end calls before the real one.
    noise: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum In {
    /// The contexts of the children are created together before any of them is started.
    Children(Vec<El>),
    Text(String),
    VirtualTags(u8),
}

trait Ctx {
    fn attr(&mut self, n: &'static str, v: String);
    fn ns(&mut self, p: &str, u: &str);
    fn default_ns(&mut self, u: &str);
    fn start(&mut self, w: &mut EventWriter<&mut Sink>) -> Result<(), WriteError>;
    fn end(&mut self, w: &mut EventWriter<&mut Sink>) -> Result<(), WriteError>;
    fn wrapped(&mut self, f: &mut dyn FnMut(&mut dyn Ctx));
}
impl<'b> Ctx for Context<'static, 'b> {
    fn attr(&mut self, n: &'static str, v: String) {
        self.set_attr(n, v)
    }
    fn ns(&mut self, p: &str, u: &str) {
        self.set_ns(p, u)
    }
    fn default_ns(&mut self, u: &str) {
        self.set_default_ns(u)
    }
    fn start(&mut self, w: &mut EventWriter<&mut Sink>) -> Result<(), WriteError> {
        self.write_start_element(w)
    }
    fn end(&mut self, w: &mut EventWriter<&mut Sink>) -> Result<(), WriteError> {
        self.write_end_element(w)
    }
    fn wrapped(&mut self, f: &mut dyn FnMut(&mut dyn Ctx)) {
        let mut c = Context::wrap(self);
        f(&mut c)
    }
}

const NAMES: &[&str] = &["a", "b", "c", "item", "p:a", "q:item", "p:x-y"];
const ATTRS: &[&str] = &["id", "ref", "p:id", "q:ref", "kind", "x-y", "Id", "lang", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38", "n39", "n40", "n41", "n42", "n43"];
/// How many of them are used most of the time.
const FEW: usize = 11;
const PREFIXES: &[&str] = &["p", "q", "r", "s"];
const URIS: &[&str] = &["urn:one", "urn:two", "http://example.com/three?a=1;b=2", "urn:été", "x"];
/// Accepted in scenarios but not generated: known finding.
const URI_AMP: &str = "http://example.com/three?a=1&b=2";

fn intern(s: &str, set: &'static [&'static str]) -> &'static str {
    set.iter().find(|x| **x == s).copied().unwrap_or(set[0])
}

fn deep(c: &mut dyn Ctx, levels: u8, f: &mut dyn FnMut(&mut dyn Ctx)) {
    if levels == 0 {
        f(c)
    } else {
        c.wrapped(&mut |w| deep(w, levels - 1, f))
    }
}

struct Run<'s> {
    bytes_seen: usize,
    calls: u64,
    err: Option<(WriteError, String)>,
    bad: Option<(String, String)>,
    _s: std::marker::PhantomData<&'s ()>,
}

impl Run<'_> {
    fn stop(&self) -> bool {
        self.err.is_some() || self.bad.is_some()
    }
    fn fails(&mut self, c: &str, d: String) {
        if self.bad.is_none() {
            self.bad = Some((c.into(), d));
        }
    }
    fn virtual_tags(&mut self, c: &mut dyn Ctx, levels: u8, w: &mut EventWriter<&mut Sink>) {
        let before = (w.inner_mut().got.len(), w.inner_mut().calls);
        let mut r: Vec<Result<(), WriteError>> = vec![];
        deep(c, levels.max(1), &mut |v| {
            r.push(v.start(w));
            r.push(v.end(w));
        });
        let after = (w.inner_mut().got.len(), w.inner_mut().calls);
        self.calls += 2;
        if before != after {
            self.fails("virtual_wrote", format!("start/end through a wrapping context wrote {} bytes", after.0 - before.0));
        }
        for x in r {
            if let Err(e) = x {
                self.fails("virtual_error", format!("start/end through a wrapping context failed: {e}"));
            }
        }
    }
    fn ops(&mut self, c: &mut dyn Ctx, ops: &[Op], w: &mut EventWriter<&mut Sink>) {
        for op in ops {
            self.calls += 1;
            match op {
                Op::Attr(l, n, v) => deep(c, *l, &mut |c| c.attr(intern(n, ATTRS), v.clone())),
                Op::Ns(l, p, u) => deep(c, *l, &mut |c| c.ns(p, u)),
                Op::DefaultNs(l, u) => deep(c, *l, &mut |c| c.default_ns(u)),
                Op::VirtualTags(l) => self.virtual_tags(c, *l, w),
                Op::Group(l, ops) => deep(c, (*l).clamp(1, 9), &mut |c| self.ops(c, ops, w)),
                Op::Dropped(ops) => {
                    let mut other = Context::new("dropped");
                    self.ops(&mut other, ops, w);
                }
            }
        }
    }
    fn noise(&mut self, c: &mut dyn Ctx, v: &Via, w: &mut EventWriter<&mut Sink>) {
        for _ in 0..v.noise.min(3) {
            self.virtual_tags(c, 1 + v.noise, w);
        }
    }
    fn elem(&mut self, c: &mut dyn Ctx, e: &El, w: &mut EventWriter<&mut Sink>) {
        self.noise(c, &e.start, w);
        if self.stop() {
            return;
        }
        self.tag(c, w, true, &e.name);
        if self.stop() {
            return;
        }
        // set after the start tag: belongs to no element
        self.ops(c, &e.unused, w);
        for i in &e.inside {
            match i {
                In::Text(t) => {
                    let before = w.inner_mut().fatal.is_some();
                    let r = w.write(XmlEvent::characters(t));
                    self.outcome(r, before, w, "text");
                }
                In::VirtualTags(l) => self.virtual_tags(c, *l, w),
                In::Children(els) => {
                    let mut ctxs: Vec<Context<'static, '_>> = els.iter().map(|e| Context::new(intern(&e.name, NAMES))).collect();
                    // attributes are set on all of them in turn before the first is started
                    let longest = els.iter().map(|e| e.before.len()).max().unwrap_or(0);
                    for k in 0..longest {
                        for (c, e) in ctxs.iter_mut().zip(els) {
                            if e.again {
                                continue;
                            }
                            if let Some(op) = e.before.get(k) {
                                self.ops(c, std::slice::from_ref(op), w);
                            }
                        }
                    }
                    let mut at = 0;
                    for (k, e) in els.iter().enumerate() {
                        let c = &mut ctxs[if e.again { at } else { k }];
                        if e.again {
                            self.ops(c, &e.before, w);
                        } else {
                            at = k;
                        }
                        self.elem(c, e, w);
                        if self.stop() {
                            return;
                        }
                    }
                }
            }
            if self.stop() {
                return;
            }
        }
        self.noise(c, &e.end, w);
        if self.stop() {
            return;
        }
        self.tag(c, w, false, &e.name);
    }
    fn tag(&mut self, c: &mut dyn Ctx, w: &mut EventWriter<&mut Sink>, start: bool, name: &str) {
        self.calls += 1;
        let before = w.inner_mut().fatal.is_some();
        let r = if start { c.start(w) } else { c.end(w) };
        self.outcome(r, before, w, &format!("{} of {name}", if start { "start" } else { "end" }));
    }
    /// A sink error during a call is reported by that call, and nothing else is reported.
    fn outcome(&mut self, r: Result<(), WriteError>, before: bool, w: &mut EventWriter<&mut Sink>, what: &str) {
        self.bytes_seen = w.inner_mut().got.len();
        let fatal = if before { None } else { w.inner_mut().fatal.clone() };
        match (r, fatal) {
            (Ok(()), None) => {}
            (Ok(()), Some((n, f))) => self.fails("error_swallowed", format!("the sink failed with {f:?} after {n} bytes during the {what}, which reported success")),
            (Err(e), None) => self.fails("error_without_fault", format!("{what}: {e}")),
            (Err(e), Some((_, f))) => {
                if !is_that_error(&e, &f) {
                    self.fails("other_error", format!("{what}: the sink failed with {f:?}, reported was {e}"));
                }
                self.err = Some((e, what.to_string()));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the reference: what each element has to carry

/// The calls in their order, without the grouping.
fn flat(ops: &[Op]) -> Vec<&Op> {
    ops.iter().flat_map(|o| if let Op::Group(_, v) = o { flat(v) } else { vec![o] }).collect()
}

/// (attributes in order, bindings)
fn expected(ops: &[Op]) -> (Vec<(String, String)>, Vec<(Option<String>, String)>) {
    let mut a = vec![];
    let mut n: Vec<(Option<String>, String)> = vec![];
    for op in flat(ops) {
        match op {
            Op::Attr(_, k, v) => a.push((intern(k, ATTRS).to_string(), v.clone())),
            Op::Ns(_, p, u) => n.push((Some(p.clone()), u.clone())),
            Op::DefaultNs(_, u) => n.push((None, u.clone())),
            _ => {}
        }
    }
    (a, n)
}

type Scope = std::collections::BTreeMap<Option<String>, String>;

fn compare(e: &El, n: roxmltree::Node, scope: &Scope, o: &mut Outcome) {
    let (attrs, binds) = expected(&e.before);
    let mut scope = scope.clone();
    for (p, u) in binds {
        scope.insert(p, u);
    }
    let got_scope: Scope = n.namespaces().filter(|x| x.name() != Some("xml")).map(|x| (x.name().map(String::from), x.uri().to_string())).collect();
    let mut want_scope = scope.clone();
    want_scope.retain(|_, u| !u.is_empty());
    let mut got2 = got_scope.clone();
    got2.retain(|_, u| !u.is_empty());
    if got2 != want_scope {
        o.fail("namespaces", format!("{}: bindings in scope {got2:?} instead of {want_scope:?}", e.name));
        return;
    }
    let resolve = |q: &str, attr: bool| -> (Option<String>, String) {
        match q.split_once(':') {
            Some((p, l)) => (scope.get(&Some(p.to_string())).cloned(), l.to_string()),
            None if attr => (None, q.to_string()),
            None => (scope.get(&None).cloned().filter(|u| !u.is_empty()), q.to_string()),
        }
    };
    let (ns, name) = resolve(intern(&e.name, NAMES), false);
    if n.tag_name().name() != name || n.tag_name().namespace().filter(|u| !u.is_empty()) != ns.as_deref() {
        o.fail("name", format!("element {:?} instead of {:?}", n.tag_name(), (ns, name)));
        return;
    }
    let want: Vec<_> = attrs.iter().map(|(k, v)| (resolve(k, true), v.clone())).collect();
    let got: Vec<_> = n.attributes().map(|a| ((a.namespace().map(String::from), a.name().to_string()), a.value().to_string())).collect();
    if want != got {
        o.fail("attributes", format!("{}: {} instead of {}", e.name, short(&format!("{got:?}")), short(&format!("{want:?}"))));
        return;
    }
    let kids: Vec<&El> = e.inside.iter().flat_map(|i| if let In::Children(v) = i { v.iter().collect() } else { vec![] }).collect();
    let els: Vec<_> = n.children().filter(|c| c.is_element()).collect();
    if kids.len() != els.len() {
        o.fail("children", format!("{}: {} children instead of {}", e.name, els.len(), kids.len()));
        return;
    }
    for (k, x) in kids.iter().zip(els) {
        compare(k, x, &scope, o);
        if o.violation.is_some() {
            return;
        }
    }
}

/// Only histories whose document is well-formed: prefixes bound, attribute names unique, one value per prefix.
fn sane(e: &El, scope: &[(Option<String>, String)], depth: usize, raw: bool) -> bool {
    if depth > 12 {
        return false;
    }
    let (attrs, binds) = expected(&e.before);
    let mut scope = scope.to_vec();
    let mut seen: Vec<Option<String>> = vec![];
    for (p, u) in &binds {
        if seen.contains(p) || p.as_deref() == Some("") || (p.is_some() && u.is_empty()) || p.as_deref() == Some("xml") || p.as_deref() == Some("xmlns") {
            return false;
        }
        if p.as_ref().map(|p| !PREFIXES.contains(&p.as_str())).unwrap_or(false) || !(u.is_empty() || (raw && u == URI_AMP) || URIS.contains(&u.as_str())) {
            return false;
        }
        seen.push(p.clone());
        if !raw && rebinds(&scope, p, u) {
            return false;
        }
        scope.push((p.clone(), u.clone()));
    }
    let bound = |q: &str| q.split_once(':').map(|(p, _)| scope.iter().any(|s| s.0.as_deref() == Some(p))).unwrap_or(true);
    if !bound(intern(&e.name, NAMES)) {
        return false;
    }
    // expanded names must differ too: the same local name with two prefixes might be one attribute
    let mut locals: Vec<&str> = vec![];
    for (k, v) in &attrs {
        let l = k.split_once(':').map(|x| x.1).unwrap_or(k);
        let prefixed = k.contains(':');
        if !bound(k) || locals.iter().any(|x| *x == k || (prefixed && x.ends_with(&format!(":{l}")))) || (!raw && v.contains('\t')) {
            return false;
        }
        locals.push(k);
    }
    e.inside.iter().all(|i| match i {
        In::Children(v) => {
            v.iter().all(|c| sane(c, &scope, depth + 1, raw))
                && v.iter().enumerate().all(|(k, c)| !c.again || (k > 0 && v[k - 1].unused.is_empty() && v[k - 1].name == c.name))
        }
        In::Text(t) => !t.contains('\r') && t.chars().all(|c| c >= ' ' || c == '\n'),
        _ => true,
    })
}

/// The prefix had this URI further out and has another one now, or the default namespace is taken back: the XML writer
/// leaves the binding out (known findings).
fn rebinds(scope: &[(Option<String>, String)], p: &Option<String>, u: &str) -> bool {
    if u.is_empty() {
        return scope.iter().rev().find(|s| s.0 == *p).is_some_and(|s| !s.1.is_empty());
    }
    scope.iter().rev().find(|s| s.0 == *p).map(|s| s.1 != u).unwrap_or(false) && scope.iter().any(|s| s.0 == *p && s.1 == u)
}

fn value(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => format!("v{}", rng.below(1000)),
        1 => "a<b>&\"c'".into(),
        2 => String::new(),
        _ => simcore::model::gen_string(rng, true).replace('\t', if rng.pct(50) { "\n" } else { "\r" }),
    }
}

fn has(scope: &[(Option<String>, String)], p: &str) -> bool {
    scope.iter().any(|s| s.0.as_deref() == Some(p))
}

fn gen_el(rng: &mut Rng, depth: usize, budget: &mut i32, scope: &[(Option<String>, String)]) -> El {
    *budget -= 1;
    let outer = scope.to_vec();
    let mut scope = scope.to_vec();
    let mut before = vec![];
    let mut bound = vec![];
    let lv = |rng: &mut Rng| if rng.pct(55) { 0 } else if rng.below(200) == 0 { rng.range(4, 9) as u8 } else { rng.range(1, 3) as u8 };
    for _ in 0..if rng.pct(40) { rng.range(1, 3) } else { 0 } {
        if rng.pct(75) {
            let p = *rng.pick(PREFIXES);
            let u = rng.pick(URIS).to_string();
            if !bound.contains(&p) && !rebinds(&outer, &Some(p.to_string()), &u) {
                bound.push(p);
                scope.push((Some(p.to_string()), u.clone()));
                before.push(Op::Ns(lv(rng), p.into(), u));
            }
        } else if !before.iter().any(|o| matches!(o, Op::DefaultNs(..))) {
            let u = if rng.pct(15) { String::new() } else { rng.pick(URIS).to_string() };
            if !rebinds(&outer, &None, &u) {
                scope.push((None, u.clone()));
                before.push(Op::DefaultNs(lv(rng), u));
            }
        }
    }
    let ok: Vec<&'static str> = NAMES.iter().filter(|n| n.split_once(':').map(|(p, _)| has(&scope, p)).unwrap_or(true)).copied().collect();
    let name = rng.pick(&ok).to_string();
    let mut used: Vec<&str> = vec![];
    let many = rng.below(60) == 0;
    for _ in 0..if many { rng.range(6, 44) } else { rng.below(6) } {
        let a = *rng.pick(if many { ATTRS } else { &ATTRS[..FEW] });
        if used.contains(&a) || a.split_once(':').map(|(p, _)| !has(&scope, p)).unwrap_or(false) {
            continue;
        }
        used.push(a);
        before.push(Op::Attr(lv(rng), a.into(), value(rng)));
    }
    rng.shuffle(&mut before);
    if rng.pct(25) {
        let at = rng.below(before.len() + 1);
        before.insert(at, if rng.pct(50) { Op::VirtualTags(rng.range(1, 3) as u8) } else { Op::Dropped(vec![Op::Attr(0, "kind".into(), "dropped".into()), Op::Ns(1, "s".into(), "urn:two".into())]) });
    }
    // some calls in a row through one wrapping context
    if before.len() > 1 && rng.pct(25) {
        let from = rng.below(before.len() - 1);
        let to = rng.range(from + 1, before.len());
        let group: Vec<Op> = before.drain(from..to).collect();
        before.insert(from, Op::Group(rng.range(1, 3) as u8, group));
    }
    let mut inside = vec![];
    if depth < (if *budget > 60 { 11 } else { 5 }) && *budget > 0 && rng.pct(if depth == 0 { 95 } else { 60 }) {
        for _ in 0..rng.range(1, 3) {
            let n = if rng.below(150) == 0 { rng.range(4, 40) } else { rng.range(1, 3) };
            let mut els: Vec<El> = (0..n).map(|_| gen_el(rng, depth + 1, budget, &scope)).collect();
            for k in 1..els.len() {
                let name = els[k - 1].name.clone();
                if rng.pct(10) && els[k - 1].unused.is_empty() && !name.contains(':') {
                    els[k].name = name;
                    els[k].again = true;
                }
            }
            inside.push(In::Children(els));
            if rng.pct(15) {
                inside.push(In::VirtualTags(rng.range(1, 2) as u8));
            }
        }
    } else if rng.pct(50) {
        inside.push(In::Text(value(rng)));
    }
    let unused = if rng.pct(20) { vec![Op::Attr(rng.below(2) as u8, "lang".into(), "late".into())] } else { vec![] };
    El {
        name,
        before,
        start: Via { noise: if rng.pct(15) { 1 } else { 0 } },
        inside,
        end: Via { noise: if rng.pct(15) { 1 } else { 0 } },
        unused,
        again: false,
    }
}

pub struct C10;

impl Prop for C10 {
    type Sc = Sc;
    const ID: &'static str = "C10";
    const RUNS: (u64, u64) = (400_000, 12_000_000);
    const RULE: &'static str = "one run = one history of context calls (several contexts alive at a time, wrapped up to three levels) and one sink fault plan, compared with what each element has to carry; non-trivial: at least two elements or a sink fault; distinct: by history and plan";
    const REAL: &'static str = "xsd::Context (unmodified), xml-rs writer";
    const STUB: &'static str = "the byte sink and the callers";

    fn gen(rng: &mut Rng, _env: &Env) -> Sc {
        let mut budget = if rng.below(100) == 0 { rng.range(40, 150) as i32 } else { rng.range(1, 25) as i32 };
        let root = gen_el(rng, 0, &mut budget, &[]);
        let mut plan = vec![];
        let size = 150;
        if rng.pct(50) {
            for _ in 0..rng.below(5) {
                plan.push((rng.below(size) as u32, SinkAct::harmless(rng)));
            }
            if rng.pct(60) {
                let n = if rng.pct(40) { rng.below(15) } else { rng.below(size) };
                plan.retain(|p: &(u32, SinkAct)| p.0 != n as u32);
                plan.push((n as u32, SinkAct::fatal(rng)));
            }
            plan.sort_by_key(|p| p.0);
            plan.dedup_by_key(|p| p.0);
        }
        Sc { cfg: Cfg::pick(rng), root, plan, raw: false }
    }

    fn exec(sc: &Sc, _env: &Env) -> Outcome {
        let mut o = Outcome::default();
        o.trivial = true;
        if !sane(&sc.root, &[], 0, sc.raw) {
            o.probe("history_not_well_formed");
            return o;
        }
        o.sig = hash_bytes(10, serde_json::to_string(sc).unwrap().as_bytes());
        let once = |plan: &[(u32, SinkAct)], o: &mut Outcome| -> Option<(Vec<u8>, bool)> {
            let mut sink = Sink::new(plan);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut run = Run { bytes_seen: 0, calls: 0, err: None, bad: None, _s: std::marker::PhantomData };
                let mut w = sc.cfg.emitter().create_writer(&mut sink);
                let mut c: Context<'static, '_> = Context::new(intern(&sc.root.name, NAMES));
                run.ops(&mut c, &sc.root.before, &mut w);
                run.elem(&mut c, &sc.root, &mut w);
                (run.bad, run.err.is_some(), run.calls)
            }));
            match r {
                Err(p) => {
                    o.fail("panic", sys::panic_text(p));
                    None
                }
                Ok((bad, err, calls)) => {
                    o.steps += calls;
                    for k in &sink.fired {
                        o.fault(k);
                    }
                    if let Some((c, d)) = bad {
                        o.fail(&c, d);
                        return None;
                    }
                    let _ = sink.flush();
                    Some((sink.got, err))
                }
            }
        };
        let Some((full, _)) = once(&[], &mut o) else { return o };
        let text = match String::from_utf8(full.clone()) {
            Ok(t) => t,
            Err(e) => {
                o.fail("not_utf8", e.to_string());
                return o;
            }
        };
        match roxmltree::Document::parse(&text) {
            Err(e) => {
                o.fail("not_well_formed", format!("{e}: {}", short(&text)));
                return o;
            }
            Ok(d) => compare(&sc.root, d.root_element(), &Scope::new(), &mut o),
        }
        if o.violation.is_some() {
            return o;
        }
        o.trivial = roxmltree::Document::parse(&text).map(|d| d.descendants().filter(|n| n.is_element()).count() < 2).unwrap_or(true);
        if !sc.plan.is_empty() {
            let Some((part, err)) = once(&sc.plan, &mut o) else { return o };
            if !full.starts_with(&part) {
                o.fail("not_a_prefix", "what the faulty sink accepted is no prefix of the document");
                return o;
            }
            if !err && part != full {
                o.fail("incomplete", "every call reported success but the document is incomplete");
                return o;
            }
            if err {
                o.probe("reported");
                o.trivial = false;
            }
            o.note(&part);
        }
        o.note(&full);
        o
    }
}
