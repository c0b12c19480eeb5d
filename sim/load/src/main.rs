//! Simulated file system, hash seeds and threads around the schema loader and code generator.
#![allow(suspicious_runtime_symbol_definitions)]
mod c04;
mod c05;
mod c06;
mod common;

simcore::interpose!();

fn main() {
    simcore::run::main_with(vec![
        simcore::run::prop::<c04::C04>(),
        simcore::run::prop::<c05::C05>(),
        simcore::run::prop::<c06::C06>(),
    ])
}
