//! Runs one case in its own process: the code under test may hang, abort or
//! exhaust memory, and the verdict is still a verdict.
use crate::case::*;
use crate::seam;
use std::io::Read;
use std::os::unix::io::FromRawFd;

pub const TICKS: u64 = 150_000_000;
pub const BYTES: i64 = 1 << 30;

pub enum Outcome {
    Report(Report),
    /// the harness itself failed
    Harness(String),
}

pub fn run(c: &Case) -> Outcome {
    let mut fds = [0i32; 2];
    unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) };
    let flag = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8
    };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            let cpu = if std::env::var("SIM_TICKS").is_ok() { 600 } else { 60 };
            // last resort for a loop that neither allocates nor ends
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            if std::env::var("SIM_STDERR").is_err() {
                let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(n, 2);
            }
        }
        seam::share(flag);
        let ticks = std::env::var("SIM_TICKS").ok().and_then(|s| s.parse().ok()).unwrap_or(TICKS);
        seam::arm(ticks, BYTES * (1 + ticks as i64 / TICKS as i64));
        let r = std::panic::catch_unwind(|| crate::props::judge(c));
        let txt = match r {
            Ok(r) => serde_json::to_string(&r).unwrap(),
            Err(_) => {
                unsafe {
                    let m = crate::last_panic();
                    libc::write(fds[1], m.as_ptr() as *const _, m.len());
                    libc::_exit(44)
                }
            }
        };
        let b = txt.as_bytes();
        let mut o = 0;
        while o < b.len() {
            let n = unsafe { libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o) };
            if n <= 0 {
                break;
            }
            o += n as usize;
        }
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut buf = Vec::new();
    f.read_to_end(&mut buf).unwrap();
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let in_lib = unsafe { *flag } == 1;
    unsafe { libc::munmap(flag as *mut _, 4096) };
    let dead = |class: &str, msg: String| {
        let mut r = Report::default();
        r.add(class, 0, msg);
        r.ticks = TICKS;
        Outcome::Report(r)
    };
    if libc::WIFEXITED(st) {
        match libc::WEXITSTATUS(st) {
            0 => match serde_json::from_slice(&buf) {
                Ok(r) => Outcome::Report(r),
                Err(e) => Outcome::Harness(format!("unreadable report: {}", e)),
            },
            seam::OUT_OF_TICKS => dead("budget", format!("no end within {} ticks", TICKS)),
            seam::OUT_OF_MEMORY => dead("budget", format!("more than {} bytes alive", BYTES)),
            44 => Outcome::Harness(format!("harness panicked: {}", String::from_utf8_lossy(&buf))),
            n if in_lib => dead("abort", format!("the code under test ended the process with status {}", n)),
            n => Outcome::Harness(format!("simulated process ended with status {}", n)),
        }
    } else if in_lib {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGXCPU || sig == libc::SIGKILL {
            dead("budget", "no end, and no allocation either".into())
        } else {
            dead("abort", format!("the code under test died of signal {}", sig))
        }
    } else {
        Outcome::Harness(format!("harness died of signal {}", libc::WTERMSIG(st)))
    }
}
