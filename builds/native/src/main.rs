//! Runs histories (a line of numbers each) and prints their traces, in a build without checks.
#[path = "../../../mc/src/builds.rs"]
#[allow(dead_code)]
mod builds;
use std::io::{BufRead, Write};

fn main() {
    assert!(!cfg!(debug_assertions));
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let script: Vec<u32> = line.split(' ').map(|x| x.parse().unwrap()).collect();
        let mut text = String::new();
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| builds::run(&script, |x| text.push_str(&format!("{x:x} ")))));
        if done.is_err() {
            text.push_str("panic ");
        }
        text.push('\n');
        let mut o = out.lock();
        o.write_all(text.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
