#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

mod checks;
mod interp;
mod ir;
mod models;
mod types;
mod val;

use std::ops::ControlFlow;

fn run_plain(args: &[String]) -> ! {
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
    panic!("exec rustc: {e}");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Ok(dir) = std::env::var("MXSA_RECORD") {
        // wrapper mode: args[1] is rustc, the rest its arguments
        let rest = &args[1..];
        let name = rest.iter().position(|a| a == "--crate-name").map(|i| rest[i + 1].clone());
        let ty = rest.iter().position(|a| a == "--crate-type").map(|i| rest[i + 1].clone());
        if let (Some(n), Some(t)) = (name, ty) {
            if n == "vharness" || n.starts_with("mitex") {
                let mut o = String::new();
                o += &std::env::current_dir().unwrap().to_string_lossy();
                for (k, v) in std::env::vars() {
                    if (k.starts_with("CARGO") && k != "CARGO_MAKEFLAGS") || k == "OUT_DIR" || k.starts_with("VERGEN") {
                        o += &format!("\0E{}={}", k, v);
                    }
                }
                for a in rest {
                    o += "\0A";
                    o += a;
                }
                std::fs::write(format!("{}/{}.{}", dir, n, t), o).unwrap();
            }
        }
        run_plain(rest);
    }
    let file = &args[1];
    let rec = std::fs::read_to_string(file).expect("recorded command line");
    let mut it = rec.split('\0');
    std::env::set_current_dir(it.next().unwrap()).unwrap();
    let mut rargs = vec![];
    for x in it {
        let (t, v) = x.split_at(1);
        if t == "E" {
            let (k, v) = v.split_once('=').unwrap();
            std::env::set_var(k, v);
        } else {
            rargs.push(v.to_string());
        }
    }
    // results go to a file named by the caller; the compiler's own messages are not needed
    let cmd: Vec<String> = args[2..].to_vec();
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let _ = rustc_public::run!(&rargs, || {
                checks::main(&cmd);
                ControlFlow::<(), ()>::Break(())
            });
        })
        .unwrap();
    h.join().unwrap();
}
