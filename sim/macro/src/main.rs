//! The schema attribute, expanded by the real compiler over a simulated file system.
mod c09;

fn main() {
    simcore::run::main_with(vec![simcore::run::prop::<c09::C09>()])
}
