//! Simulated sinks, disks, channels, relays, readers and threads around the generated code and its runtime.
#![allow(suspicious_runtime_symbol_definitions)]
mod c01;
mod c02;
mod c03;
mod c07;
mod c08;
mod c10;
mod c11;
mod common;

simcore::interpose!();

fn main() {
    use simcore::run::prop;
    simcore::run::main_with(vec![
        prop::<c01::C01>(),
        prop::<c02::C02>(),
        prop::<c03::C03>(),
        prop::<c07::C07>(),
        prop::<c08::C08>(),
        prop::<c10::C10>(),
        prop::<c11::C11>(),
    ])
}
