//! Development aid: many runs of one property's generator, every class shown.
use crate::exec::*;
use crate::props;
use crate::rng::*;
use std::collections::BTreeMap;

pub fn main(a: &[String]) {
    let n: u64 = a[1].parse().unwrap();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    props::prepare(&a[0]);
    if let Some(i) = a.get(2) {
        let c = props::gen(&a[0], mix(seed, i.parse().unwrap()));
        println!("{}", serde_json::to_string(&c).unwrap());
        match run(&c) {
            Outcome::Report(r) => println!("{:#?}", r),
            Outcome::Harness(m) => println!("HARNESS {}", m),
        }
        props::cleanup();
        return;
    }
    let t0 = std::time::Instant::now();
    let mut pipes = vec![];
    for w in 0..8u64 {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        if unsafe { libc::fork() } == 0 {
            let mut cls: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            let mut tags: BTreeMap<String, u64> = BTreeMap::new();
            for i in (w..n).step_by(8) {
                let c = props::gen(&a[0], mix(seed, i));
                match run(&c) {
                    Outcome::Report(r) => {
                        let mut seen = std::collections::BTreeSet::new();
                        for v in r.viol {
                            let c = if v.class == "panic" { format!("panic {}", v.msg) } else { v.class.clone() };
                            if seen.insert(c.clone()) {
                                let e = cls.entry(c).or_insert((0, i, v.msg.clone()));
                                e.0 += 1;
                            }
                        }
                        for (k, v) in r.tags {
                            *tags.entry(k).or_insert(0) += v;
                        }
                        *tags.entry("ticks".into()).or_insert(0) += r.ticks;
                        let e = tags.entry("max_ticks".into()).or_insert(0);
                        *e = (*e).max(r.ticks);
                    }
                    Outcome::Harness(m) => {
                        let e = cls.entry(format!("HARNESS {}", m)).or_insert((0, i, m));
                        e.0 += 1;
                    }
                }
            }
            let txt = serde_json::to_string(&(cls, tags)).unwrap();
            let mut o = 0;
            while o < txt.len() {
                let k = unsafe { libc::write(fds[1], txt[o..].as_ptr() as *const _, txt.len() - o) };
                o += k as usize;
            }
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        pipes.push(fds[0]);
    }
    let mut cls: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    for f in pipes {
        use std::io::Read;
        use std::os::unix::io::FromRawFd;
        let mut f = unsafe { std::fs::File::from_raw_fd(f) };
        let mut s = String::new();
        f.read_to_string(&mut s).unwrap();
        let (c, t): (BTreeMap<String, (u64, u64, String)>, BTreeMap<String, u64>) = serde_json::from_str(&s).unwrap();
        for (k, v) in c {
            let e = cls.entry(k).or_insert((0, v.1, v.2));
            e.0 += v.0;
        }
        for (k, v) in t {
            let e = tags.entry(k.clone()).or_insert(0);
            if k.starts_with("max") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
    }
    println!("{} {} runs in {:.1}s {:?}", a[0], n, t0.elapsed().as_secs_f64(), tags);
    for (k, v) in cls {
        let m: String = v.2.chars().take(200).collect();
        println!("  {:6} {} #{}: {}", v.0, k, v.1, m);
    }
    props::cleanup();
}
