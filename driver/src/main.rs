//! `factdump`: a rustc driver that type-checks one crate and writes, for every local body, its
//! (unoptimised, drop-elaborated) MIR with resolved callees, evaluated constants, named fields and
//! named variants, plus the ADT, static and impl tables, as one JSON file. It never runs the code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let s = dump::dump_crate(tcx);
            let tmp = format!("{dir}/{name}.json.tmp{}", std::process::id());
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, format!("{dir}/{name}.json")).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut crate_name = String::new();
    let mut i = 0;
    while i + 1 < args.len() {
        if args[i] == "--crate-name" {
            crate_name = args[i + 1].clone();
        }
        i += 1;
    }
    let wanted = ["dd_sds", "sds_bindings_utils", "dd_sds_go", "probe", "sdsmodels", "sdsref"];
    let out = if wanted.contains(&crate_name.as_str()) {
        std::env::var("FACTS_OUT").ok()
    } else {
        None
    };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
