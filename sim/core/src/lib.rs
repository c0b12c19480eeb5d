//! Simulator shared by all checks: seeded PRNG, intercepted system calls and allocator, thread
//! scheduler, scenario runner with minimiser and replay, schema model with instance generator and
//! reference decoder, XML trees.
pub mod model;
pub mod modelgen;
pub mod rng;
pub mod run;
pub mod shrink;
pub mod sys;
pub mod xmltree;
