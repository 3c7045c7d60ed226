// Native replay: reads "fn bits_a bits_b o_id [region]" lines, prints the bits of the result.
use seuif97::*;
use std::io::{BufRead, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() < 4 {
            continue;
        }
        let a = f64::from_bits(u64::from_str_radix(w[1], 16).unwrap());
        let b = f64::from_bits(u64::from_str_radix(w[2], 16).unwrap());
        let o: i32 = w[3].parse().unwrap();
        let r: Option<i32> = w.get(4).map(|x| x.parse().unwrap());
        let f = w[0].to_string();
        let v = std::panic::catch_unwind(move || match (f.as_str(), r) {
            ("pt", None) => pt(a, b, o),
            ("pt", Some(r)) => pt(a, b, (o, r)),
            ("ph", None) => ph(a, b, o),
            ("ph", Some(r)) => ph(a, b, (o, r)),
            ("ps", None) => ps(a, b, o),
            ("ps", Some(r)) => ps(a, b, (o, r)),
            ("hs", None) => hs(a, b, o),
            ("hs", Some(r)) => hs(a, b, (o, r)),
            ("pv", None) => pv(a, b, o),
            ("pv", Some(r)) => pv(a, b, (o, r)),
            ("tv", None) => tv(a, b, o),
            ("tv", Some(r)) => tv(a, b, (o, r)),
            ("th", None) => th(a, b, o),
            ("th", Some(r)) => th(a, b, (o, r)),
            ("ts", None) => ts(a, b, o),
            ("ts", Some(r)) => ts(a, b, (o, r)),
            ("px", _) => px(a, b, o),
            ("tx", _) => tx(a, b, o),
            ("hx", _) => hx(a, b, o),
            ("sx", _) => sx(a, b, o),
            _ => f64::NAN,
        });
        match v {
            Ok(v) => writeln!(out, "{:016x}", v.to_bits()).unwrap(),
            Err(_) => writeln!(out, "panic").unwrap(),
        }
        out.flush().unwrap();
    }
}
