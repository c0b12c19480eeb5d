//! corpusgen SEED COUNT OUT: candidate schemas for the compiled corpus (see sim/corpus/make.py).
use std::collections::BTreeSet;
use std::path::Path;

use serde_json::Value;
use simcore::model::*;
use simcore::modelgen::{gen_model, Feat};
use simcore::rng::{mix, Rng};

fn features(v: &Value, path: &[String], out: &mut BTreeSet<String>) {
    let put = |path: &[String], tag: String, out: &mut BTreeSet<String>| -> Vec<String> {
        let mut p = path.to_vec();
        p.push(tag);
        for n in 1..=4 {
            if p.len() >= n {
                out.insert(p[p.len() - n..].join(">"));
            }
        }
        p
    };
    match v {
        Value::Object(m) => {
            let occurs = |m: &serde_json::Map<String, Value>| {
                let min = m.get("min").and_then(|v| v.as_u64()).map(|v| v.min(2));
                let max = m.get("max").map(|v| match v {
                    Value::String(_) => "*".to_string(),
                    v => v.get("N").and_then(|n| n.as_u64()).unwrap_or(1).min(2).to_string(),
                });
                match (min, max) {
                    (Some(a), Some(b)) => format!("{a}-{b}"),
                    (Some(a), None) => format!("{a}"),
                    _ => String::new(),
                }
            };
            for (k, x) in m {
                match k.as_str() {
                    "name" | "docs" | "path" | "enums" | "facets" | "tns" | "min" | "max" | "default" => continue,
                    "refers" if x.is_null() => continue,
                    _ => {}
                }
                if k.chars().next().unwrap().is_uppercase() {
                    let o = x.as_object().map(occurs).unwrap_or_default();
                    let p = put(path, format!("{k}{o}"), out);
                    features(x, &p, out);
                } else {
                    let p = if matches!(k.as_str(), "attrs" | "refers" | "seq" | "base" | "usage" | "style" | "qualified") {
                        put(path, k.clone(), out)
                    } else {
                        path.to_vec()
                    };
                    features(x, &p, out);
                }
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                if i == 0 && a.len() > 1 && path.len() > 1 {
                    let mut p = path.to_vec();
                    p.push("first".into());
                    features(x, &p, out);
                }
                features(x, path, out);
            }
        }
        Value::String(s) => {
            if s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                put(path, s.clone(), out);
            }
        }
        Value::Bool(b) => {
            put(path, b.to_string(), out);
        }
        Value::Number(n) => {
            put(path, n.to_string(), out);
        }
        _ => {}
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // corpusgen print OUT MODEL...: the schema of hand-made models
    if a[1] == "print" {
        for f in &a[3..] {
            let m: Model = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            let d = Path::new(&a[2]).join(Path::new(f).file_stem().unwrap());
            for (p, t) in xsd_files(&m) {
                let f = d.join("schema").join(p);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(f, t).unwrap();
            }
            std::fs::write(d.join("model.json"), serde_json::to_string(&m).unwrap()).unwrap();
        }
        return;
    }
    let seed: u64 = a[1].parse().unwrap();
    let count: u64 = a[2].parse().unwrap();
    let out = Path::new(&a[3]);
    for i in 0..count {
        let mut rng = Rng::new(mix(seed ^ mix(i)));
        let feat = Feat { files: *rng.pick(&[1, 1, 2, 3, 6]), decls: rng.range(3, 6), depth: rng.range(1, 3), compilable: true };
        let m = gen_model(&mut rng, &feat);
        let d = out.join(format!("{i:04}"));
        for (p, t) in xsd_files(&m) {
            let f = d.join("schema").join(p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, t).unwrap();
        }
        std::fs::write(d.join("model.json"), serde_json::to_string(&m).unwrap()).unwrap();
        let mut fs = BTreeSet::new();
        features(&serde_json::to_value(&m).unwrap(), &[], &mut fs);
        std::fs::write(d.join("features.txt"), fs.into_iter().collect::<Vec<_>>().join("\n")).unwrap();
    }
}
