//! Feeds requests (three hex strings per line) to the web entry point; answers in hex, one per line.
#[path = "/repo/json_typegen_wasm/src/lib.rs"]
mod wasm;

use std::io::BufRead;

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<String> = l.split(' ').map(|x| unhex(&x[1..])).collect();
        match std::panic::catch_unwind(|| wasm::run(&f[0], &f[1], &f[2])) {
            Ok(s) => println!("x{}", s.bytes().map(|b| format!("{:02x}", b)).collect::<String>()),
            Err(_) => println!("panic"),
        }
    }
}
