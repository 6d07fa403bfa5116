mod case;
mod check;
mod cli;
mod edges;
mod exec;
mod gen;
mod genlib;
mod geom;
mod lib_judge;
mod meshops;
mod oracle;
mod points;
mod poly;
mod props;
mod region;
mod rng;
mod scen;
mod sched;
mod seam;
mod sweep;
mod world;

use std::sync::Mutex;
static PANIC: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
    PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", msg, loc);
        if !seam::in_lib() {
            eprintln!("{} at {}", msg, loc);
        }
    }));
}

fn main() {
    hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("sweep") => sweep::main(&a[2..]),
        Some("check") if a.len() == 3 => std::process::exit(check::main(&a[2])),
        Some("replay") if a.len() == 3 => std::process::exit(check::replay(&a[2])),
        Some("determinism") if a.len() == 4 => std::process::exit(check::determinism(&a[2], a[3].parse().unwrap())),
        _ => {
            eprintln!("usage: sim check <property> | replay <file> | determinism <property> <runs> | sweep <property> <runs> [index]");
            std::process::exit(2);
        }
    }
}
