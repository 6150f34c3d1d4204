//! Dumps the type-checked MIR of selected crates as JSON.
//!
//! Used as `RUSTC_WRAPPER`: `laps-mir-driver <rustc> <args...>`.  Crates whose
//! name is listed in `LAPS_DUMP_CRATES` are compiled by this driver (with the
//! same flags) and dumped to `LAPS_DUMP_DIR/<crate>.json`; every other
//! invocation is passed to the real compiler unchanged.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;
use std::process::{exit, Command};

struct Dumper {
  dir: String,
}

impl Callbacks for Dumper {
  fn after_analysis<'tcx>(&mut self, _: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let out = dump::dump(tcx);
    let path = format!("{}/{}.json", self.dir, name);
    let tmp = format!("{path}.{}.tmp", std::process::id());
    if std::fs::write(&tmp, out).and_then(|_| std::fs::rename(&tmp, &path)).is_err() {
      eprintln!("laps-mir-driver: cannot write {path}");
      exit(3);
    }
    Compilation::Continue
  }
}

fn main() -> std::process::ExitCode {
  let mut args: Vec<String> = std::env::args().collect();
  // drop our own name; args[0] is then the real rustc
  args.remove(0);
  if args.is_empty() {
    eprintln!("usage: laps-mir-driver <rustc> <args...>");
    exit(2);
  }
  let crates = std::env::var("LAPS_DUMP_CRATES").unwrap_or_default();
  let dir = std::env::var("LAPS_DUMP_DIR").unwrap_or_default();
  let name = args
    .iter()
    .position(|a| a == "--crate-name")
    .and_then(|i| args.get(i + 1))
    .cloned()
    .unwrap_or_default();
  let selected = !dir.is_empty() && crates.split(',').any(|c| !c.is_empty() && c == name);
  if !selected {
    let status = Command::new(&args[0]).args(&args[1..]).status();
    exit(match status {
      Ok(s) => s.code().unwrap_or(101),
      Err(e) => {
        eprintln!("laps-mir-driver: cannot run {}: {e}", args[0]);
        101
      }
    });
  }
  args.push("-Zmir-opt-level=0".into());
  args.push("-Zinline-mir=no".into());
  let mut d = Dumper { dir };
  rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut d))
}
