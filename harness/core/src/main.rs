//! Checks of metriken-core and metriken (no exposition): see DESIGN.md.
#![allow(clippy::all)]
mod arena;
mod counters;
mod fmtcheck;
mod hist;
mod ident;
mod iters;
mod lazycheck;
mod meta;
mod provide;
mod registry;
mod registry_conc;
mod statics;
mod util;

use vcommon::Ctx;

fn main() {
    let mut ctx = Ctx::from_env();
    match ctx.property.clone().as_str() {
        "C01" => counters::c01(&mut ctx),
        "C02" => counters::c02(&mut ctx),
        "C03" => registry::c03(&mut ctx),
        "C04" => registry_conc::c04(&mut ctx),
        "C05" => iters::c05(&mut ctx),
        "C06" => meta::c06(&mut ctx),
        "C07" => fmtcheck::c07(&mut ctx),
        "C08" => provide::c08(&mut ctx),
        "C09" => lazycheck::c09(&mut ctx),
        "C12" => hist::c12(&mut ctx),
        "C13" => hist::c13(&mut ctx),
        "C23" => ident::c23(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
