#![allow(dead_code, unused_imports, unused_macros)]
#[path = "../dict.rs"]
mod dict;
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[path = "../cli.rs"]
mod cli;
#[path = "../scal.rs"]
mod scal;
#[macro_use]
#[path = "../widths.rs"]
mod widths;
#[path = "../words.rs"]
mod words;
#[path = "../prog.rs"]
mod prog;
#[path = "../huge.rs"]
mod huge;
#[path = "../vectors.rs"]
mod vectors;

fn property(id: &str) -> Option<engine::Property> {
    Some(match id {
        "C06" => vectors::c06(),
        "C07" => vectors::c07(),
        "C08" => vectors::c08(),
        "C09" => vectors::c09(),
        "C10" => vectors::c10(),
        "C11" => vectors::c11(),
        "C12" => vectors::c12(),
        "C13" => vectors::c13(),
        _ => return None,
    })
}
fn main() {
    cli::run(property)
}
