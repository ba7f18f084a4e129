#![allow(dead_code)]
// The code under test, compiled from the working tree.
#[allow(warnings)] #[path = "/repo/packages/zkenc-cli/src/circom.rs"] pub mod circom;
#[allow(warnings)] #[path = "/repo/packages/zkenc-cli/src/crypto.rs"] pub mod crypto;
#[allow(warnings)] #[path = "/repo/packages/zkenc-cli/src/r1cs.rs"] pub mod r1cs;
#[allow(warnings)] #[path = "/repo/packages/zkenc-cli/src/serializable.rs"] pub mod serializable;
#[allow(warnings)] #[path = "/repo/packages/zkenc-cli/src/sym_parser.rs"] pub mod sym_parser;
#[allow(warnings)] #[path = "/repo/packages/zkenc-core/src/serializable.rs"] pub mod core_serializable;

mod p_big;
mod p_crypto;
mod p_inputs;
mod p_r1cs;
mod p_snap;
mod p_sym;

#[global_allocator]
static GLOBAL: hcommon::alloc::Guarded = hcommon::alloc::Guarded;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--nonces") { p_crypto::dump_nonces(); return; }
    if std::env::args().nth(1).as_deref() == Some("--forks") { p_crypto::fork_nonces(); return; }
    let mut ctx = hcommon::Ctx::from_args();
    match ctx.check.as_str() {
        "P10" => p_r1cs::p10(&mut ctx),
        "P11" => p_r1cs::p11(&mut ctx),
        "P13" => p_sym::p13(&mut ctx),
        "P16" => p_inputs::p16(&mut ctx),
        "P17" => p_crypto::p17(&mut ctx),
        "P18" => p_crypto::p18(&mut ctx),
        "P19" => p_crypto::p19(&mut ctx),
        "P20" => p_crypto::p20(&mut ctx),
        "P22" => p_snap::p22(&mut ctx),
        "P23" => p_snap::p23(&mut ctx),
        "P38" => p_big::p38(&mut ctx),
        "P39" => p_snap::p39(&mut ctx),
        x => { eprintln!("no such check here: {}", x); std::process::exit(2) }
    }
    ctx.finish()
}
