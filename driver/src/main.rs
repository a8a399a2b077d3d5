//! rustc driver that dumps the type-checked program (MIR, types, constants,
//! trait impls) of a workspace crate as JSON lines, for the analyses in ../sa.
//!
//! Invoked by cargo as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args..].
//! Writes $MIRDUMP_OUT/<crate>.<crate-type>.jsonl for crates named in
//! $MIRDUMP_CRATES (colon separated; empty = all).
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::ty::TyCtxt;

struct Cb {
  out: Option<String>,
}

impl Callbacks for Cb {
  fn config(&mut self, _config: &mut Config) {}
  fn after_analysis<'tcx>(
    &mut self, _c: &Compiler, tcx: TyCtxt<'tcx>,
  ) -> Compilation {
    if let Some(out) = &self.out {
      dump::dump(tcx, out);
    }
    Compilation::Continue
  }
}

fn main() -> std::process::ExitCode {
  let mut args: Vec<String> = std::env::args().collect();
  // drop own name; args[0] becomes "rustc"
  args.remove(0);
  let crate_name = args
    .iter()
    .position(|a| a == "--crate-name")
    .and_then(|i| args.get(i + 1).cloned());
  let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
  let outdir = std::env::var("MIRDUMP_OUT").ok();
  let is_build = crate_name.as_deref() == Some("build_script_build");
  let mut out = None;
  if let (Some(n), Some(dir)) = (&crate_name, &outdir) {
    let want = wanted.is_empty() || wanted.split(':').any(|w| w == n);
    if want && !is_build && n != "___" {
      let ct = args
        .iter()
        .position(|a| a == "--crate-type")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_else(|| "bin".into());
      let ct = if ct == "bin" { "bin" } else { "lib" };
      out = Some(format!("{dir}/{n}.{ct}.jsonl"));
      args.push("-Zmir-opt-level=0".into());
      args.push("-Zinline-mir=no".into());
      args.push("-Zthreads=8".into());
    }
  }
  let mut cb = Cb { out };
  rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
