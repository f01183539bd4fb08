#![allow(dead_code, unused_imports, unused_macros)]
#[path = "../dict.rs"]
mod dict;
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../widths.rs"]
mod widths;
#[path = "../scal.rs"]
mod scal;
#[path = "../words.rs"]
mod words;

fn property(id: &str) -> Option<engine::Property> {
    Some(match id {
        "C01" => words::c01(),
        "C02" => words::c02(),
        "C03" => words::c03(),
        "C04" => words::c04(),
        "C05" => words::c05(),
        _ => return None,
    })
}
fn main() {
    cli::run(property)
}
