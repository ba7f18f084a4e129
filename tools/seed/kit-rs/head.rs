#![allow(dead_code, unused_imports)]
#[path = "@REPO@/packages/zkenc-cli/src/serializable.rs"] mod serializable;
#[path = "@REPO@/packages/zkenc-cli/src/r1cs.rs"] mod r1cs;
#[path = "@REPO@/packages/zkenc-cli/src/circom.rs"] mod circom;
#[path = "@REPO@/packages/zkenc-cli/src/crypto.rs"] mod crypto;
#[path = "@REPO@/packages/zkenc-cli/src/sym_parser.rs"] mod sym_parser;
fn scratch() -> std::path::PathBuf { std::path::PathBuf::from("scratch") }
fn put(name: &str, bytes: &[u8]) -> String { std::fs::create_dir_all(scratch()).unwrap(); let p = scratch().join(name); std::fs::write(&p, bytes).unwrap(); p.to_str().unwrap().to_string() }
