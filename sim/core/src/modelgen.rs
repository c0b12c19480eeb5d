//! Random schema models from a seed.
use crate::model::*;
use crate::rng::Rng;

const GLOBALS: &[&str] = &[
    "Amber", "Birch", "Cobalt", "Dune", "Ember", "Fjord", "Grove", "Harbor", "Iris", "Juniper", "Knoll", "Larch", "Meadow", "Nimbus", "Orchid", "Pebble",
    "Quartz", "Ridge", "Sorrel", "Tundra", "Umber", "Velvet", "Willow", "Xenon", "Yarrow", "Zephyr", "Basalt", "Cinder", "Delta", "Estuary",
];
const LOCALS: &[&str] = &[
    "apple", "bolt", "crane", "drift", "eagle", "flint", "grain", "heron", "inlet", "jolt", "kayak", "lemon", "mango", "north", "opal", "pinch", "quiet", "raven",
    "spark", "torch", "ulna", "vivid", "wharf", "xylem", "yeast", "zebra", "type", "match", "Upper-Case", "under_score", "dotted.name", "CamelCase", "mixed2Num", "größe",
];
const ATTRS: &[&str] = &["id", "ref", "kind", "unit", "lang", "Count", "max-size", "is_set", "loop", "weight", "version", "scale", "a", "zone", "dir", "x-y-z", "größe"];
const ENUMS: &[&str] = &[
    "red", "green", "blue", "dark-red", "dark_red", "1", "2nd", "-", "+", "NaN", "a b", "A B", "été", "", "x<y", "\"q\"", "&amp;", "Self", "none", "some/thing", "Zz", "RED", " red", "blue ", "gr\u{fc}n",
];
const DOCS: &[&str] = &["A thing.", "Two\n   lines of text", "x < y & z", "\u{e9}t\u{e9}", "    "];

/// What the generator may use (0..100 weights); features whose code is known to be broken are left out.
#[derive(Clone, Debug)]
pub struct Feat {
    pub files: usize,
    pub decls: usize,
    pub depth: usize,
    /// Names that cannot clash in generated Rust code (needed when the code is compiled).
    pub compilable: bool,
}

struct G<'a> {
    rng: &'a mut Rng,
    feat: Feat,
    m: Model,
    globals: Vec<&'static str>,
    file: usize,
}

pub fn gen_model(rng: &mut Rng, feat: &Feat) -> Model {
    let nfiles = rng.range(1, feat.files.max(1));
    let mut globals: Vec<&'static str> = GLOBALS.to_vec();
    rng.shuffle(&mut globals);
    // some differ only in ways that a careless comparison does not see
    let mut uris = ["urn:one", "http://example.com/two", "urn:three?x=1;y=2", "urn:one/", "URN:one", "http://example.com/two#", "urn:on"];
    if rng.pct(70) {
        rng.shuffle(&mut uris[1..]);
    }
    let main_tns = if rng.pct(55) { Some(uris[0].to_string()) } else { None };
    let main_q = rng.pct(50);
    let mut m = Model { files: vec![] };
    for i in 0..nfiles {
        let tns = if i == 0 {
            main_tns.clone()
        } else {
            match rng.below(5) {
                0 => main_tns.clone(),
                4 if rng.pct(40) => None,
                k => Some(uris[k - 1].to_string()),
            }
        };
        let qualified = if i == 0 {
            main_q
        } else if main_q {
            rng.pct(75)
        } else {
            rng.pct(50)
        };
        let dir = *rng.pick(&["", "", "sub/", "sub/deep/", "other/"]);
        let style = match rng.below(10) {
            0..=5 => 0,
            6..=7 => 1,
            _ => 2,
        };
        m.files.push(FileModel {
            path: if i == 0 { "main.xsd".into() } else { format!("{dir}f{i}.xsd") },
            tns,
            qualified,
            style,
            refs: vec![],
            refs_last: rng.pct(20),
            decls: vec![],
        });
    }
    // file graph: every file reachable from main; later files are referenced by earlier ones
    for i in 1..nfiles {
        let from = rng.below(i);
        m.files[from].refs.push(i);
        if rng.pct(25) {
            let from = rng.below(i);
            if !m.files[from].refs.contains(&i) {
                m.files[from].refs.push(i);
            }
        }
    }
    let mut g = G { rng, feat: feat.clone(), m, globals, file: 0 };
    // deepest files first, so that earlier files can use what later ones declare
    for f in (0..nfiles).rev() {
        g.file = f;
        let n = g.rng.range(if f == 0 { 2 } else { 1 }, feat.decls.max(2));
        for _ in 0..n {
            if g.globals.is_empty() {
                break;
            }
            let d = g.decl();
            g.m.files[f].decls.push(d);
        }
    }
    // unqualified names in a file without target namespace that has XSD as default namespace cannot be written
    for f in 0..nfiles {
        let refs_none = g.m.files.iter().any(|f| f.tns.is_none());
        if g.m.files[f].style == 1 && refs_none {
            g.m.files[f].style = 0;
        }
        if g.m.files[f].style == 2 && (g.m.files[f].tns.is_none() || refs_none) {
            g.m.files[f].style = 0;
        }
    }
    g.m
}

impl G<'_> {
    fn docs(&mut self) -> Option<String> {
        if self.rng.pct(15) {
            Some(self.rng.pick(DOCS).to_string())
        } else {
            None
        }
    }
    fn lit(&mut self) -> Lit {
        if self.rng.pct(35) {
            Lit::String
        } else {
            *self.rng.pick(LITS)
        }
    }
    /// Files whose declarations the current file can see: itself and everything below.
    fn visible(&self) -> Vec<usize> {
        let mut v = vec![self.file];
        let mut i = 0;
        while i < v.len() {
            for r in &self.m.files[v[i]].refs {
                if !v.contains(r) {
                    v.push(*r);
                }
            }
            i += 1;
        }
        v
    }
    fn pick_global(&mut self, ok: impl Fn(&Model, &GRef, &DeclKind) -> bool) -> Option<GRef> {
        let mut c = Vec::new();
        for f in self.visible() {
            for d in &self.m.files[f].decls {
                let g = GRef { file: f, name: d.name.clone() };
                if ok(&self.m, &g, &d.kind) {
                    c.push(g);
                }
            }
        }
        if c.is_empty() {
            None
        } else {
            Some(self.rng.pick(&c).clone())
        }
    }
    fn decl(&mut self) -> Decl {
        let name = self.globals.pop().unwrap().to_string();
        let docs = self.docs();
        let kind = match self.rng.below(10) {
            0..=4 => DeclKind::Element(self.global_type()),
            5..=6 => DeclKind::Simple(self.simple()),
            _ => {
                let mut c = self.complex(0);
                // recursive types
                if let Body::Seq { parts, .. } = &mut c.body {
                    if self.rng.pct(20) {
                        let rec = ElemP {
                            name: "again".into(),
                            refers: None,
                            ty: TypeUse::Named(GRef { file: self.file, name: name.clone() }),
                            min: 0,
                            max: Max::Unbounded,
                            default: None,
                            docs: None,
                            form: None,
                        };
                        let at = self.rng.below(parts.len() + 1);
                        parts.insert(at, Particle::Elem(rec));
                    }
                }
                DeclKind::Complex(c)
            }
        };
        Decl { name, docs, kind }
    }
    fn global_type(&mut self) -> TypeUse {
        match self.rng.below(12) {
            0 => TypeUse::Lit(self.lit()),
            1 => self.fixed(),
            2 => TypeUse::Simple(self.simple()),
            3..=4 => match self.named() {
                Some(g) => TypeUse::Named(g),
                None => TypeUse::Lit(self.lit()),
            },
            _ => TypeUse::Complex(Box::new(self.complex(0))),
        }
    }
    fn fixed(&mut self) -> TypeUse {
        match self.rng.below(5) {
            0 => TypeUse::Fixed(Lit::Int, "42".into()),
            3 => TypeUse::Fixed(Lit::String, " Edge ".into()),
            4 => TypeUse::Fixed(Lit::String, "1".into()),
            1 => TypeUse::Fixed(Lit::String, "x <& y".into()),
            _ => TypeUse::Fixed(Lit::String, "constant".into()),
        }
    }
    /// A named simple or complex type.
    fn named(&mut self) -> Option<GRef> {
        self.pick_global(|_, _, k| matches!(k, DeclKind::Simple(_) | DeclKind::Complex(_)))
    }
    fn simple(&mut self) -> SimpleTy {
        if self.rng.pct(45) {
            let compilable = self.feat.compilable;
            let mut v: Vec<String> = ENUMS.iter().filter(|s| !compilable || **s != "Self").map(|s| s.to_string()).collect();
            self.rng.shuffle(&mut v);
            let n = if self.rng.pct(10) { self.rng.range(12, 22) } else { self.rng.range(1, 8) };
            v.truncate(n);
            if !v.iter().any(|s| !s.is_empty()) {
                v.push("only".into());
            }
            return SimpleTy { base: Lit::String, enums: v, facets: vec![] };
        }
        let base = self.lit();
        let mut facets = vec![];
        if self.rng.pct(40) {
            match base {
                Lit::String => facets.push(("maxLength".into(), "1000".into())),
                Lit::Decimal => facets.push(("fractionDigits".into(), "9".into())),
                Lit::Int | Lit::Long => facets.push(("minInclusive".into(), "-9".into())),
                _ => {}
            }
        }
        SimpleTy { base, enums: vec![], facets }
    }
    fn attrs(&mut self, taken: &mut Vec<String>, max: usize) -> Vec<AttrModel> {
        let n = if self.rng.pct(8) { self.rng.range(6, 16) } else { self.rng.below(max + 1) };
        let mut v = vec![];
        for _ in 0..n {
            let name = self.rng.pick(ATTRS).to_string();
            if taken.contains(&name.to_lowercase()) {
                continue;
            }
            taken.push(name.to_lowercase());
            let ty = match self.rng.below(10) {
                0..=4 => TypeUse::Lit(self.lit()),
                5 => self.fixed(),
                6..=7 => TypeUse::Simple(self.simple()),
                _ => {
                    match self.pick_global(|_, _, k| matches!(k, DeclKind::Simple(_))) {
                        Some(g) => TypeUse::Named(g),
                        None => TypeUse::Lit(Lit::String),
                    }
                }
            };
            let usage = match self.rng.below(10) {
                0..=3 => Usage::Required,
                4..=5 => Usage::Optional,
                6..=7 => Usage::OptionalImplicit,
                8 => {
                    let k = attr_kind(&self.m, &AttrModel { name: String::new(), ty: ty.clone(), usage: Usage::Optional });
                    match k {
                        TextKind::Lit(l) => Usage::Default(gen_lit(self.rng, l, true)),
                        TextKind::Enum(v, _) => Usage::Default(v[0].clone()),
                        TextKind::Fixed(_) => Usage::Optional,
                    }
                }
                _ => {
                    if self.rng.pct(40) {
                        Usage::Prohibited
                    } else {
                        Usage::Required
                    }
                }
            };
            v.push(AttrModel { name, ty, usage });
        }
        v
    }
    fn complex(&mut self, depth: usize) -> ComplexTy {
        let mut at = vec!["value".to_string()];
        let mut names: Vec<String> = vec!["base".into()];
        match self.rng.below(20) {
            0 => ComplexTy { attrs: self.attrs(&mut at, 4), body: Body::Empty },
            1..=2 => {
                let base = if self.rng.pct(50) {
                    TypeUse::Lit(self.lit())
                } else {
                    match self.pick_global(|_, _, k| matches!(k, DeclKind::Simple(_)) || matches!(k, DeclKind::Complex(c) if matches!(c.body, Body::SimpleContent(_)))) {
                        Some(g) => {
                            self.reserve(&g, &mut at, &mut names);
                            TypeUse::Named(g)
                        }
                        None => TypeUse::Lit(self.lit()),
                    }
                };
                ComplexTy { attrs: self.attrs(&mut at, 3), body: Body::SimpleContent(base) }
            }
            3..=5 => {
                let base = self.pick_global(|m, g, k| match k {
                    DeclKind::Complex(c) => matches!(c.body, Body::Seq { .. } | Body::Empty | Body::Extension { .. } | Body::Choice(_)) && !m.texty(g),
                    _ => false,
                });
                match base {
                    Some(b) => {
                        self.reserve(&b, &mut at, &mut names);
                        let seq = if self.rng.pct(65) {
                            let min = if self.rng.pct(30) { 0 } else { 1 };
                            let solid = min == 0 && self.rng.pct(70);
                            Some((min, self.parts(depth + 1, &mut names, 3, solid)))
                        } else {
                            None
                        };
                        ComplexTy { attrs: self.attrs(&mut at, 2), body: Body::Extension { base: b, seq } }
                    }
                    None => self.seq(depth, &mut at, &mut names),
                }
            }
            6..=8 => {
                let n = if self.rng.pct(10) { self.rng.range(6, 11) } else { self.rng.range(1, 5) };
                let mut es = vec![];
                for _ in 0..n {
                    let mut e = self.elem(depth + 1, &mut names, false);
                    if e.min > 1 {
                        e.min = 1;
                    }
                    e.max = Max::N(1);
                    es.push(e);
                }
                ComplexTy { attrs: self.attrs(&mut at, 2), body: if self.rng.pct(15) { Body::OptAll(es) } else { Body::All(es) } }
            }
            9..=11 => {
                let vs = self.variants(depth + 1, &mut names);
                ComplexTy { attrs: self.attrs(&mut at, 2), body: Body::Choice(vs) }
            }
            _ => self.seq(depth, &mut at, &mut names),
        }
    }
    fn seq(&mut self, depth: usize, at: &mut Vec<String>, names: &mut Vec<String>) -> ComplexTy {
        let (min, max) = match self.rng.below(10) {
            0 => (0, Max::N(1)),
            1 => (0, Max::Unbounded),
            2 => (1, Max::Unbounded),
            3 => (1, Max::N(3)),
            _ => (1, Max::N(1)),
        };
        let group = (min == 0 || max.many()) && self.rng.pct(70);
        let parts = self.parts(depth + 1, names, 5, group);
        ComplexTy { attrs: self.attrs(at, 3), body: Body::Seq { min, max, parts } }
    }
    /// Attribute and element names used by a base type.
    fn reserve(&self, g: &GRef, at: &mut Vec<String>, names: &mut Vec<String>) {
        let Some(d) = self.m.decl(g) else { return };
        if let DeclKind::Complex(c) = &d.kind {
            for a in &c.attrs {
                at.push(a.name.to_lowercase());
            }
            let mut v = vec![];
            collect_body(&c.body, &mut v);
            names.extend(v);
            match &c.body {
                Body::Extension { base, .. } => self.reserve(base, at, names),
                Body::SimpleContent(TypeUse::Named(b)) => self.reserve(b, at, names),
                _ => {}
            }
        }
    }
    /// `solid`: a group that is optional or repeated; it must not be able to be empty.
    fn parts(&mut self, depth: usize, names: &mut Vec<String>, max: usize, solid: bool) -> Vec<Particle> {
        let n = if depth < 2 && self.rng.pct(5) { self.rng.range(8, 18) } else { self.rng.range(1, max) };
        let mut v = vec![];
        for _ in 0..n {
            let p = match self.rng.below(10) {
                0..=6 => Particle::Elem(self.elem(depth, names, true)),
                7..=8 if depth <= self.feat.depth => {
                    let (min, max) = *self.rng.pick(&[
                        (1, Max::N(1)),
                        (1, Max::N(1)),
                        (0, Max::N(1)),
                        (0, Max::Unbounded),
                        (1, Max::Unbounded),
                        (2, Max::N(4)),
                    ]);
                    Particle::Choice { min, max, variants: self.variants(depth + 1, names) }
                }
                9 if depth <= self.feat.depth => {
                    let min = if self.rng.pct(50) { 0 } else { 1 };
                    let solid = self.rng.pct(65);
                    Particle::Seq { min, parts: self.parts(depth + 1, names, 3, solid) }
                }
                _ => Particle::Elem(self.elem(depth, names, true)),
            };
            v.push(p);
        }
        if solid && !v.iter().any(|p| matches!(p, Particle::Elem(e) if e.min > 0 && !e.max.many())) {
            let mut e = self.elem(depth, names, false);
            e.min = 1;
            e.max = Max::N(1);
            let at = self.rng.below(v.len() + 1);
            v.insert(at, Particle::Elem(e));
        }
        v
    }
    fn variants(&mut self, depth: usize, names: &mut Vec<String>) -> Vec<Variant> {
        let n = if depth < 3 && self.rng.pct(6) { self.rng.range(6, 12) } else { self.rng.range(1, 4) };
        (0..n)
            .map(|_| {
                if self.rng.pct(25) && depth <= self.feat.depth + 1 {
                    Variant::Seq(self.parts(depth + 1, names, 3, true))
                } else {
                    let mut e = self.elem(depth, names, true);
                    if e.min == 0 {
                        e.min = 1;
                    }
                    Variant::Elem(e)
                }
            })
            .collect()
    }
    fn local_name(&mut self, names: &mut Vec<String>) -> String {
        for _ in 0..60 {
            let n = self.rng.pick(LOCALS).to_string();
            if !names.contains(&n) {
                names.push(n.clone());
                return n;
            }
        }
        let n = format!("more{}x", names.len());
        names.push(n.clone());
        n
    }
    fn elem(&mut self, depth: usize, names: &mut Vec<String>, many: bool) -> ElemP {
        let (min, max) = if many {
            *self.rng.pick(&[
                (1, Max::N(1)),
                (1, Max::N(1)),
                (1, Max::N(1)),
                (0, Max::N(1)),
                (0, Max::N(1)),
                (0, Max::Unbounded),
                (1, Max::Unbounded),
                (1, Max::N(3)),
                (2, Max::N(2)),
                (0, Max::N(2)),
            ])
        } else {
            *self.rng.pick(&[(1, Max::N(1)), (1, Max::N(1)), (0, Max::N(1))])
        };
        let docs = self.docs();
        if self.rng.pct(12) {
            let taken = names.clone();
            if let Some(g) = self.pick_global(|_, g, k| matches!(k, DeclKind::Element(_)) && !taken.contains(&g.name)) {
                names.push(g.name.clone());
                return ElemP { name: g.name.clone(), refers: Some(g), ty: TypeUse::Untyped, min, max, default: None, docs: None, form: None };
            }
        }
        let name = self.local_name(names);
        let ty = match self.rng.below(12) {
            0..=4 => TypeUse::Lit(self.lit()),
            5 => self.fixed(),
            6 => TypeUse::Simple(self.simple()),
            7 => TypeUse::Untyped,
            8..=9 => match self.named() {
                Some(g) => TypeUse::Named(g),
                None => TypeUse::Lit(self.lit()),
            },
            _ if depth <= self.feat.depth => TypeUse::Complex(Box::new(self.complex(depth + 1))),
            _ => TypeUse::Lit(self.lit()),
        };
        let default = if matches!(ty, TypeUse::Lit(Lit::String)) && self.rng.pct(15) { Some("dflt".into()) } else { None };
        let form = self.rng.pct(3).then(|| self.rng.pct(50));
        ElemP { name, refers: None, ty, min, max, default, docs, form }
    }
}

impl Model {
    /// The content of this type is text.
    pub fn texty(&self, g: &GRef) -> bool {
        match self.decl(g).map(|d| &d.kind) {
            Some(DeclKind::Simple(_)) => true,
            Some(DeclKind::Complex(c)) => match &c.body {
                Body::SimpleContent(_) => true,
                Body::Extension { base, .. } => self.texty(base),
                _ => false,
            },
            _ => false,
        }
    }
}

fn collect_body(b: &Body, v: &mut Vec<String>) {
    match b {
        Body::Seq { parts, .. } => collect_parts(parts, v),
        Body::All(es) | Body::OptAll(es) => v.extend(es.iter().map(|e| e.name.clone())),
        Body::Choice(vs) => collect_variants(vs, v),
        Body::Extension { seq: Some((_, parts)), .. } => collect_parts(parts, v),
        _ => {}
    }
}
fn collect_variants(vs: &[Variant], v: &mut Vec<String>) {
    for x in vs {
        match x {
            Variant::Elem(e) => v.push(e.name.clone()),
            Variant::Seq(p) => collect_parts(p, v),
        }
    }
}
fn collect_parts(ps: &[Particle], v: &mut Vec<String>) {
    for p in ps {
        match p {
            Particle::Elem(e) => v.push(e.name.clone()),
            Particle::Choice { variants, .. } => collect_variants(variants, v),
            Particle::Seq { parts, .. } => collect_parts(parts, v),
        }
    }
}
