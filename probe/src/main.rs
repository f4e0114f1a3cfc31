//! Executes the operations listed on standard input, one per line
//! (`op arg arg ...`, arguments in hex), in whatever configuration of the library this
//! was built with.  Prints one result per line, `n/a` where the configuration does not
//! offer the operation.  With `threads N`, N threads execute all of them at once, each
//! starting somewhere else, with the same contexts and with contexts of their own; a
//! result that is not the same everywhere is printed as `differs`.
extern crate alloc;
mod exec;
mod low;
use exec::*;
use std::io::{BufRead, Write};
use std::sync::{Arc, Barrier, OnceLock};

fn contexts() -> Ctx {
    #[cfg(all(miri, feature = "static-context", not(feature = "lazy-static-context")))]
    return Ctx::copied();
    #[allow(unreachable_code)]
    Ctx::new()
}

fn one(line: &str, c: &Ctx) -> String {
    let mut w = line.split(' ');
    let op = w.next().unwrap();
    let a: Vec<Vec<u8>> = w.map(unhex).collect();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(op, &a, c)))
        .unwrap_or_else(|_| "panic".into())
}

fn main() {
    if std::env::var_os("PROBE_MESSAGES").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    if args.len() == 3 && args[1] == "threads" {
        let n: usize = args[2].parse().unwrap();
        let lines: Arc<Vec<String>> = Arc::new(std::io::stdin().lock().lines().map(|l| l.unwrap()).collect());
        let shared: Arc<OnceLock<Ctx>> = Arc::new(OnceLock::new());
        let start = Arc::new(Barrier::new(n));
        let all: Vec<_> = (0..n)
            .map(|t| {
                let (lines, start, shared) = (lines.clone(), start.clone(), shared.clone());
                std::thread::spawn(move || {
                    // every other thread makes contexts of its own while the rest run
                    start.wait();
                    let own = if t % 4 == 3 { Some(contexts()) } else { None };
                    let k = lines.len();
                    let mut r = vec![String::new(); k];
                    for i in 0..k {
                        // two threads each start at the same place, half the threads run backwards
                        let i = (i + k * (t / 2) / n) % k;
                        let i = if t % 4 >= 2 { k - 1 - i } else { i };
                        let c = own.as_ref().unwrap_or_else(|| shared.get_or_init(contexts));
                        r[i] = one(&lines[i], c);
                    }
                    r
                })
            })
            .collect();
        let all: Vec<Vec<String>> = all.into_iter().map(|t| t.join().unwrap()).collect();
        for i in 0..lines.len() {
            match all.iter().find(|r| r[i] != all[0][i]) {
                Some(o) => writeln!(out, "differs: {} / {}", all[0][i], o[i]).unwrap(),
                None => writeln!(out, "{}", all[0][i]).unwrap(),
            }
        }
        return;
    }
    let c = contexts();
    for line in std::io::stdin().lock().lines() {
        writeln!(out, "{}", one(&line.unwrap(), &c)).unwrap();
        if cfg!(miri) || args.len() == 2 && args[1] == "flush" {
            out.flush().unwrap();
        }
    }
}
