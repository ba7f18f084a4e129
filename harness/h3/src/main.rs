#![allow(dead_code)]
mod circ;
mod cli;
mod p_cli;
mod p_core;
mod p_files;
mod p_more;
mod syn;
mod toy;

#[global_allocator]
static GLOBAL: hcommon::alloc::Guarded = hcommon::alloc::Guarded;

fn main() {
    let mut ctx = hcommon::Ctx::from_args();
    match ctx.check.as_str() {
        "P01" => p_cli::p01(&mut ctx),
        "P02" => p_core::p02(&mut ctx),
        "P03" => p_core::p03(&mut ctx),
        "P04" => p_core::p04(&mut ctx),
        "P05" => p_cli::p05(&mut ctx),
        "P06" => p_core::p06(&mut ctx),
        "P07" => p_core::p07(&mut ctx),
        "P08" => p_core::p08(&mut ctx),
        "P09" => p_files::p09(&mut ctx),
        "P12" => p_files::p12(&mut ctx),
        "P14" => p_cli::p14(&mut ctx),
        "P24" => p_cli::p24(&mut ctx),
        "P30" => p_files::p30(&mut ctx),
        "P33" => p_more::p33(&mut ctx),
        "P34" => p_more::p34(&mut ctx),
        "P35" => p_more::p35(&mut ctx),
        "P36" => p_more::p36(&mut ctx),
        "P38" => p_more::p38(&mut ctx),
        "P39" => p_more::p39(&mut ctx),
        "P40" => p_more::p40(&mut ctx),
        "P31" => p_cli::p31(&mut ctx),
        x => { eprintln!("no such check here: {}", x); std::process::exit(2) }
    }
    ctx.finish()
}
