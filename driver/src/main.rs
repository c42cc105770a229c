//! factdrv: a rustc wrapper that dumps MIR facts of workspace crates as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = factdrv <rustc> <args...>
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::run(tcx, &self.out);
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // drop argv[0] (ourselves); argv[1] is the rustc path
    args.remove(0);
    if args.is_empty() {
        eprintln!("factdrv: no args");
        std::process::exit(2);
    }
    let out = std::env::var("FACTDRV_OUT").unwrap_or_default();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let is_build_script = crate_name.as_deref().map_or(true, |n| n.starts_with("build_script"));
    let probing = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print="));
    if out.is_empty() || is_build_script || probing || crate_name.as_deref() == Some("___") {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    }
    let ct = args
        .iter()
        .position(|a| a == "--crate-type")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_else(|| "lib".into());
    let name = crate_name.unwrap();
    let suffix = if ct == "bin" { ".bin" } else { "" };
    let out = format!("{}/{}{}.json", out, name, suffix);
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
