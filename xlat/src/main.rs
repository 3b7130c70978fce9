//! Mechanical extraction of matrixmultiply's macro-expanded source into Verus.
//!   xlat SRC.rs CONTRACT_DIR OUT.rs OUT.json CFG [--external path,path,...]
mod contracts;
mod emit;
mod model;
mod passes;

use std::collections::BTreeSet;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 {
        eprintln!("usage: xlat SRC CONTRACTS OUT.rs OUT.json CFG [--external a,b]");
        std::process::exit(2);
    }
    let src = std::fs::read_to_string(&args[1]).expect("read source");
    let mut external = BTreeSet::new();
    let mut i = 6;
    while i < args.len() {
        if args[i] == "--external" {
            external.extend(args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()));
            i += 1;
        }
        i += 1;
    }
    let file = match passes::parse_expanded(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("parse error: {}", e);
            std::process::exit(3);
        }
    };
    let contracts = match contracts::load_dir(&args[2], &args[5]) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("contracts: {}", e);
            std::process::exit(3);
        }
    };
    let krate = model::Crate::build(file);
    let out = emit::emit_crate(&krate, &contracts, &args[5], &external);
    std::fs::write(&args[3], out.text).unwrap();
    std::fs::write(&args[4], out.json).unwrap();
}
