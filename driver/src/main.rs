#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod effects;
mod flt;
mod gfcheck;
mod interp;
mod decode_scen;
mod damage_scen;
mod ir;
mod iso;
mod natives;
mod ops;
mod pipe_scen;
mod roots;
mod scen;
mod jobs;
mod term;
mod img_scen;
mod find_scen;
mod robust_scen;
mod robust_dec;
mod extract_scen;
mod seg_scen;
mod util_scen;
mod val;


fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let ours = cname == "bardecoder" || cname == "bvroots";
    if !ours {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        eprintln!("cannot run {}: {}", args[0], e);
        std::process::exit(101);
    }
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Awarnings".into());
    let job = std::env::var("BV_JOB").unwrap_or_default();
    if job == "C27" && cname == "bardecoder" {
        args.push("-Funsafe_code".into());
    }
    let run = cname == "bvroots" && !job.is_empty();
    let mut code = 0;
    let r = rustc_public::run!(&args, || -> std::ops::ControlFlow<()> {
        if run {
            code = roots::run(&job);
            return std::ops::ControlFlow::Break(());
        }
        std::ops::ControlFlow::Continue(())
    });
    if run {
        std::process::exit(code);
    }
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) | Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
