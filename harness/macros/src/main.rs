//! Checks of the metric attribute: programs are generated, compiled against
//! /repo and run. See DESIGN.md.
mod bad;
mod good;
mod lit;
mod project;
mod unsound;

use vcommon::Ctx;

fn main() {
    let mut ctx = Ctx::from_env();
    match ctx.property.clone().as_str() {
        "C10" => good::c10(&mut ctx),
        "C11" => bad::c11(&mut ctx),
        "C27" => unsound::c27(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
