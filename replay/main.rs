//! Replays a witness of the symbolic engine on the real code.
//! native-replay ENTRY WITNESS-FILE   (lines: name kind value)
#![allow(static_mut_refs)]
#[path = "../harness/src/lib.rs"]
mod symharness;
pub use symharness::{bound, crypto, env, form, keys, oracle, signed, sym};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("witness file");
    let mut w = vec![];
    for l in text.lines() {
        let p: Vec<&str> = l.splitn(3, '\t').collect();
        if p.len() != 3 { continue; }
        let v = match p[1] {
            "bytes" => (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect(),
            _ => p[2].parse::<u64>().expect("number").to_le_bytes().to_vec(),
        };
        w.push((p[0].split('#').next().unwrap().to_string(), v));
    }
    *sym::WITNESS.lock().unwrap() = (w, 0);
    let f = symharness::HARNESSES.iter().find(|(n, _)| *n == a[1]).expect("harness").1;
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i)));
    f();
    println!("DONE");
}
