#![allow(dead_code, unused_imports, unused_macros)]
#[path = "../dict.rs"]
mod dict;
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[path = "../cli.rs"]
mod cli;
#[path = "../scal.rs"]
mod scal;
#[macro_use]
#[path = "../widths.rs"]
mod widths;
#[path = "../words.rs"]
mod words;
#[path = "../prog.rs"]
mod prog;
#[path = "../huge.rs"]
mod huge;
#[path = "../vectors.rs"]
mod vectors;
#[path = "../tensors.rs"]
mod tensors;
#[path = "../series.rs"]
mod series;
#[path = "../memory.rs"]
mod memory;
#[cfg(feature = "hooks")]
#[path = "../borrowed.rs"]
mod borrowed;

fn property(id: &str) -> Option<engine::Property> {
    Some(match id {
        "C22" => memory::c22(),
        _ => return None,
    })
}
fn main() {
    cli::run(property)
}
