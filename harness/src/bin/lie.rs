#![allow(dead_code, unused_imports, unused_macros)]
#[path = "../dict.rs"]
mod dict;
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../widths.rs"]
mod widths;
#[path = "../lie.rs"]
mod lie;

fn property(id: &str) -> Option<engine::Property> {
    Some(match id {
        "C24" => lie::c24(),
        "C25" => lie::c25(),
        "C26" => lie::c26(),
        "C27" => lie::c27(),
        _ => return None,
    })
}
fn main() {
    cli::run(property)
}
