#!/usr/bin/env python3
"""Makes the compiled corpus c0..cK from candidate schemas: make.py SEED CANDIDATES COUNT.

Run by hand; its output is committed. Candidates whose generated code does not compile are left out
(that schemas compile is not claimed); among the others a greedy choice covers the most features.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
SIM = HERE.parent
CRATES = 6
CARGO = '''[package]
name = "corpus{k}"
version = "0.1.0"
edition = "2021"

[features]
streams = []

[dependencies]
glue = {{ path = "../../glue" }}
xsd = {{ path = "/repo/xsd" }}
rust_decimal = {{ version = "=1.37.2", default-features = false, features = ["std"] }}

[workspace]
'''

def pascal(n):
    return n[0].upper() + n[1:]

def module(name, model):
    m = json.load(open(model))
    # the root schema's target namespace decides nothing here: every global of every file becomes an item
    names = []
    for f in m["files"]:
        for d in f["decls"]:
            names.append(d["name"])
    return names

def mod_text(name, names, path):
    ids = [pascal(n) for n in names]
    return (f'    #[xsd::all(schema = "{path}")]\n    pub mod {name} {{\n        #[cfg(feature = "streams")]\n'
            f'        ::glue::streams! {{ {" ".join(ids)} }}\n    }}\n',
            f'glue::roots! {{ {name}, "{name}": {" ".join(f"{i} = {json.dumps(n)}" for i, n in zip(ids, names))} }}\n')

def lib(mods):
    s = "//! Written by make.py.\n#![allow(warnings)]\nmod schema {\n" + "".join(a for a, _ in mods) + "}\n" + "".join(b for _, b in mods)
    return s

def main():
    seed, cand, count = map(int, sys.argv[1:4])
    tmp = Path(tempfile.mkdtemp(prefix="corpus-"))
    env = dict(os.environ, CARGO_TARGET_DIR=str(tmp / "target"), CARGO_NET_OFFLINE="true")
    subprocess.run(["cargo", "run", "-q", "--release", "--offline", "--manifest-path", str(SIM / "core/Cargo.toml"), "--bin", "corpusgen",
                    str(seed), str(cand), str(tmp / "cand")], check=True, env=env)
    hand = sorted(str(f) for f in (HERE / "hand").glob("*.json"))
    subprocess.run(["cargo", "run", "-q", "--release", "--offline", "--manifest-path", str(SIM / "core/Cargo.toml"), "--bin", "corpusgen",
                    "print", str(tmp / "hand"), *hand], check=True, env=env)
    base = tmp / "base"
    (base / "src").mkdir(parents=True)
    (base / "src/lib.rs").write_text("")
    (base / "Cargo.toml").write_text(CARGO.format(k="base").replace("../../glue", str(SIM / "glue")))
    if (SIM / "code/Cargo.lock").exists():
        shutil.copy(SIM / "code/Cargo.lock", base / "Cargo.lock")
    subprocess.run(["cargo", "build", "-q", "--offline"], cwd=base, check=True, env=env)
    deps = tmp / "target/debug/deps"
    ext = []
    for n in ("glue", "xsd", "rust_decimal"):
        ext += ["--extern", f"{n}=" + str(next(deps.glob(f"lib{n}-*.rlib")))]

    def compiles(d):
        names = module("s", d / "model.json")
        if len(set(pascal(n) for n in names)) != len(names):
            return None
        (d / "lib.rs").write_text(lib([mod_text("s", names, "schema/main.xsd")]))
        r = subprocess.run(["rustc", "--edition=2021", "--crate-type=lib", "--crate-name", "cand", "--emit=metadata", "--cfg", 'feature="streams"',
                            "-o", str(d / "out.rmeta"), "-L", f"dependency={deps}", *ext, str(d / "lib.rs")],
                           env=dict(env, CARGO_MANIFEST_DIR=str(d)), capture_output=True, text=True)
        (d / "err.txt").write_text(r.stderr)
        return r.returncode == 0

    dirs = sorted((tmp / "cand").iterdir())
    with ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(compiles, dirs))
    good = [d for d, k in zip(dirs, ok) if k]
    print(f"{len(good)} of {len(dirs)} candidates compile", file=sys.stderr)
    for d, k in zip(dirs, ok):
        if not k:
            e = (d / "err.txt").read_text()
            print("  ", d.name, next((l for l in e.splitlines() if l.startswith("error")), "?"), file=sys.stderr)
    feats = {d: set((d / "features.txt").read_text().splitlines()) for d in good}
    size = {d: len((d / "model.json").read_text()) for d in good}
    covered, chosen = set(), []
    while len(chosen) < count and len(chosen) < len(good):
        best = max((d for d in good if d not in chosen), key=lambda d: (len(feats[d] - covered) / (size[d] ** 0.6), d.name))
        chosen.append(best)
        covered |= feats[best]
    allf = set().union(*feats.values())
    print(f"features covered: {len(covered)} of {len(allf)}", file=sys.stderr)
    for old in HERE.glob("c[0-9]"):
        shutil.rmtree(old)
    # hand-made ones first
    items = [(d.name, d, True) for d in sorted((tmp / "hand").iterdir())]
    for _, d, _ in items:
        if not compiles(d):
            sys.exit(f"{d.name} does not compile: " + (d / "err.txt").read_text())
    items += [(f"s{i:03}", d, False) for i, d in enumerate(chosen)]
    groups = [[] for _ in range(CRATES)]
    load = [0] * CRATES
    for it in sorted(items, key=lambda it: -len((it[1] / "model.json").read_text())):
        k = load.index(min(load))
        load[k] += len((it[1] / "model.json").read_text()) + 800
        groups[k].append(it)
    for k, g in enumerate(groups):
        c = HERE / f"c{k}"
        (c / "src").mkdir(parents=True)
        (c / "Cargo.toml").write_text(CARGO.format(k=k))
        mods, table = [], []
        for name, d, _ in sorted(g):
            shutil.copytree(d / "schema", c / "schemas" / name)
            (c / "models").mkdir(exist_ok=True)
            shutil.copy(d / "model.json", c / "models" / f"{name}.json")
            mods.append(mod_text(name, module(name, d / "model.json"), f"schemas/{name}/main.xsd"))
            table.append(name)
        s = lib(mods)
        s += "pub static SCHEMAS: &[(&str, &str, &[glue::Root])] = &[\n" + "".join(
            f'    ("{n}", include_str!("../models/{n}.json"), {n}::ROOTS),\n' for n in table) + "];\n"
        (c / "src/lib.rs").write_text(s)
    shutil.rmtree(tmp)

main()
