//! Checks of metriken-exposition: see DESIGN.md.
#![allow(clippy::all)]
mod callbacks;
mod codec;
mod conv;
mod model;
mod ownership;
mod pq;
mod snap;
mod snapconc;
mod table;

use vcommon::Ctx;

#[global_allocator]
static ALLOC: ownership::Counting = ownership::Counting;

fn main() {
    let mut ctx = Ctx::from_env();
    match ctx.property.clone().as_str() {
        "C14" => snap::c14(&mut ctx),
        "C24" => snapconc::c24(&mut ctx),
        "C25" => callbacks::c25(&mut ctx),
        "C26" => ownership::c26(&mut ctx),
        "C15" => codec::c15(&mut ctx),
        "C16" => codec::c16(&mut ctx),
        "C17" => pq::c17(&mut ctx),
        "C18" => pq::c18(&mut ctx),
        "C19" => pq::c19(&mut ctx),
        "C20" => pq::c20(&mut ctx),
        "C21" => conv::c21(&mut ctx),
        "C22" => conv::c22(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
