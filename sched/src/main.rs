//! The history server of S01 with rx509 compiled so that every basic block calls the scheduler
//! (feature `blocks`), or not optimised at all.
#![allow(dead_code)]

#[cfg(feature = "blocks")]
#[path = "../../mc/src/blocks.rs"]
mod blocks;
#[cfg(not(feature = "blocks"))]
#[path = "../../mc/src/outside.rs"]
mod outside;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/gen.rs"]
mod gen;
#[path = "../../mc/src/history.rs"]
mod history;
#[path = "../../mc/src/refder.rs"]
mod refder;
#[path = "../../mc/src/refprint.rs"]
mod refprint;
#[path = "../../mc/src/refx509.rs"]
mod refx509;
#[path = "../../mc/src/sut.rs"]
mod sut;

fn main() {
    std::process::exit(history::history_process(""));
}
