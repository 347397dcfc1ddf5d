//! Dumps the type-checked program (MIR before drop elaboration, resolved
//! callees, types, item-level facts) of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; the analysis itself is in ../analysis.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        // Overflow checks must be visible as assertions.
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.overflow_checks = Some(true);
        config.opts.lint_cap = Some(rustc_lint_allow());
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn rustc_lint_allow() -> rustc_lint_level::Level {
    rustc_lint_level::Level::Allow
}

mod rustc_lint_level {
    extern crate rustc_lint_defs;
    pub use rustc_lint_defs::Level;
}

fn main() {
    // argv: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").ok();
    let is_bin = args
        .windows(2)
        .any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let is_print = args.iter().any(|a| a.starts_with("--print"))
        || crate_name == "___"
        || crate_name == "build_script_build"
        || crate_name.is_empty();
    if is_print || dir.is_none() {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    let kind = if is_bin { "bin" } else { "lib" };
    let prefix = std::env::var("MIRDUMP_PREFIX").unwrap_or_default();
    let out = format!("{}/{}{}.{}.json", dir.unwrap(), prefix, crate_name, kind);
    if let Ok(extra) = std::env::var("MIRDUMP_EXTRA_ARGS") {
        args.extend(extra.split_whitespace().map(|s| s.to_string()));
    }
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
