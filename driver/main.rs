// vf-driver: a rustc wrapper that type-checks a crate exactly as cargo asked for and then
// writes the resolved program (MIR with resolved callees, types, constants, impls, ADTs,
// unsafe regions) as JSON, for the analyses in /verif/vf.  Nothing of the analysed program is run.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_attr_ir;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;

mod dump;
mod json;
mod corpus;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
    name: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let v = if self.name.starts_with("facet_witness") {
            corpus::dump(tcx)
        } else {
            dump::dump_crate(tcx)
        };
        let path = format!("{}/{}.json", self.out, self.name);
        let tmp = format!("{}.tmp{}", path, std::process::id());
        let mut s = String::new();
        v.write(&mut s);
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &path).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER convention: argv[1] is the path of the real rustc.
    args.remove(0);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .map(|i| args[i + 1].clone());
    let out = std::env::var("VF_OUT").unwrap_or_default();
    let wanted = match &name {
        Some(n) => n.starts_with("facet") && !out.is_empty() && !args.iter().any(|a| a == "--print"),
        None => false,
    };
    if !wanted {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
    let name = name.unwrap();
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Cdebug-assertions=on".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    args.push("--cap-lints=warn".into());
    args.push("-Awarnings".into());
    let code = rustc_driver::catch_with_exit_code(move || {
        let mut cb = Cb { out, name };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
