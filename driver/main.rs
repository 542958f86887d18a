// A rustc driver which, after analysis of one of the crates named in $VP_CRATES, writes the MIR of every
// function of that crate, and of everything reachable from them, to $VP_OUT/<crate>.json.
#![feature(rustc_private)]
#![feature(box_syntax)]
extern crate rustc;
extern crate rustc_driver;
extern crate rustc_target;
extern crate rustc_data_structures;
extern crate syntax;
extern crate syntax_pos;

mod json;
mod dump;

use rustc_driver::driver;
use rustc_driver::CompilerCalls;
use rustc::session::Session;

struct Calls;

impl<'a> CompilerCalls<'a> for Calls {
    fn build_controller(self: Box<Self>, _: &Session, _: &rustc_driver::getopts::Matches)
        -> driver::CompileController<'a>
    {
        let mut control = driver::CompileController::basic();
        control.after_analysis.callback = box |state: &mut driver::CompileState| {
            let tcx = state.tcx.expect("no type context");
            dump::dump(tcx);
        };
        control
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a RUSTC_WRAPPER, the path of the real rustc is the first argument.
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or(String::new());
    let wanted = std::env::var("VP_CRATES").unwrap_or(String::new());
    let hit = wanted.split(',').any(|c| c == name);
    if !hit {
        let status = std::process::Command::new("rustc").args(&args[1..]).status().expect("cannot run rustc");
        std::process::exit(status.code().unwrap_or(101));
    }
    if !args.iter().any(|a| a == "--sysroot") {
        let out = std::process::Command::new("rustc").args(&["--print", "sysroot"]).output().unwrap();
        args.push("--sysroot".to_string());
        args.push(String::from_utf8(out.stdout).unwrap().trim().to_string());
    }
    args.push("-Zalways-encode-mir".to_string());
    args.push("-Zmir-opt-level=0".to_string());
    let code = rustc_driver::run(move || rustc_driver::run_compiler(&args, box Calls, None, None));
    std::process::exit(code as i32);
}
