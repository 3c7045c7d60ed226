// Native replay through the exported C symbols: reads "fn bits_a bits_b o_id" lines, prints the bits of the result.
extern crate seuif97;
use std::io::{BufRead, Write};
extern "C" {
    fn pt(a: f64, b: f64, o: i32) -> f64;
    fn ph(a: f64, b: f64, o: i32) -> f64;
    fn ps(a: f64, b: f64, o: i32) -> f64;
    fn hs(a: f64, b: f64, o: i32) -> f64;
    fn pv(a: f64, b: f64, o: i32) -> f64;
    fn tv(a: f64, b: f64, o: i32) -> f64;
    fn th(a: f64, b: f64, o: i32) -> f64;
    fn ts(a: f64, b: f64, o: i32) -> f64;
    fn px(a: f64, b: f64, o: i32) -> f64;
    fn tx(a: f64, b: f64, o: i32) -> f64;
    fn hx(a: f64, b: f64, o: i32) -> f64;
    fn sx(a: f64, b: f64, o: i32) -> f64;
}
fn main() {
    let _ = seuif97::OP;
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() < 4 {
            continue;
        }
        let a = f64::from_bits(u64::from_str_radix(w[1], 16).unwrap());
        let b = f64::from_bits(u64::from_str_radix(w[2], 16).unwrap());
        let o: i32 = w[3].parse().unwrap();
        let f = match w[0] {
            "pt" => pt,
            "ph" => ph,
            "ps" => ps,
            "hs" => hs,
            "pv" => pv,
            "tv" => tv,
            "th" => th,
            "ts" => ts,
            "px" => px,
            "tx" => tx,
            "hx" => hx,
            _ => sx,
        };
        let v = unsafe { f(a, b, o) };
        writeln!(out, "{:016x}", v.to_bits()).unwrap();
        out.flush().unwrap();
    }
}
