use std::path::{Path, PathBuf};

use simcore::sys;
use xsd_internal::ast::Namespace;
use xsd_internal::xsd::schema::{Schema, SchemaError};

/// Everything a user can observe of a loaded schema.
pub fn describe(s: &Schema) -> String {
    let mut v: Vec<String> = s.elements().map(|(n, r)| format!("{}|{}|{:?}", n.name, ns_uri(s, n.namespace), r)).collect();
    v.sort();
    let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s.generate_all() {
        Ok(t) => t.to_string(),
        Err(e) => format!("error {e}"),
    }))
    .unwrap_or_else(|p| format!("panic {}", sys::panic_text(p)));
    format!("{}\n{code}", v.join("\n"))
}

pub fn ns_uri(s: &Schema, n: Namespace) -> String {
    match n {
        Namespace::None => String::new(),
        Namespace::Id(id) => s.context().namespaces.get_by_id(id).namespace.clone(),
    }
}

pub fn error_chain(e: &SchemaError) -> String {
    let mut s = e.to_string();
    let mut c: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = c {
        s.push_str(" / ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

/// A directory of this run, emptied.
pub fn fresh_dir(p: &Path) -> PathBuf {
    let _ = std::fs::remove_dir_all(p);
    std::fs::create_dir_all(p).expect("run directory");
    p.to_path_buf()
}

/// Keeps scenario paths inside the run directory.
pub fn safe(p: &str) -> String {
    let parts: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != "." && *c != "..").collect();
    if parts.is_empty() {
        "x".into()
    } else {
        parts.join("/")
    }
}

pub fn put(dir: &Path, path: &str, data: &[u8]) {
    let f = dir.join(safe(path));
    if let Some(d) = f.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(f, data);
}

pub fn tree(dir: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    let mut st = vec![dir.to_path_buf()];
    while let Some(d) = st.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(ft) = e.file_type() else { continue };
            if ft.is_dir() {
                st.push(p.clone());
                v.push((p.to_string_lossy().into_owned(), vec![]));
            } else if ft.is_file() {
                v.push((p.to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default()));
            } else {
                v.push((p.to_string_lossy().into_owned(), b"link".to_vec()));
            }
        }
    }
    v.sort();
    v
}
