// Instantiates the generic public API of seuif97 so that its LLVM IR exists.
use seuif97::*;
#[no_mangle]
pub fn v_pt(a: f64, b: f64, o: i32) -> f64 {
    pt(a, b, o)
}
#[no_mangle]
pub fn v_pt_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    pt(a, b, (o, r))
}
#[no_mangle]
pub fn v_ph(a: f64, b: f64, o: i32) -> f64 {
    ph(a, b, o)
}
#[no_mangle]
pub fn v_ph_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    ph(a, b, (o, r))
}
#[no_mangle]
pub fn v_ps(a: f64, b: f64, o: i32) -> f64 {
    ps(a, b, o)
}
#[no_mangle]
pub fn v_ps_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    ps(a, b, (o, r))
}
#[no_mangle]
pub fn v_hs(a: f64, b: f64, o: i32) -> f64 {
    hs(a, b, o)
}
#[no_mangle]
pub fn v_hs_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    hs(a, b, (o, r))
}
#[no_mangle]
pub fn v_pv(a: f64, b: f64, o: i32) -> f64 {
    pv(a, b, o)
}
#[no_mangle]
pub fn v_pv_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    pv(a, b, (o, r))
}
#[no_mangle]
pub fn v_tv(a: f64, b: f64, o: i32) -> f64 {
    tv(a, b, o)
}
#[no_mangle]
pub fn v_tv_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    tv(a, b, (o, r))
}
#[no_mangle]
pub fn v_th(a: f64, b: f64, o: i32) -> f64 {
    th(a, b, o)
}
#[no_mangle]
pub fn v_th_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    th(a, b, (o, r))
}
#[no_mangle]
pub fn v_ts(a: f64, b: f64, o: i32) -> f64 {
    ts(a, b, o)
}
#[no_mangle]
pub fn v_ts_r(a: f64, b: f64, o: i32, r: i32) -> f64 {
    ts(a, b, (o, r))
}
#[no_mangle]
pub fn v_px(a: f64, b: f64, o: i32) -> f64 {
    px(a, b, o)
}
#[no_mangle]
pub fn v_tx(a: f64, b: f64, o: i32) -> f64 {
    tx(a, b, o)
}
#[no_mangle]
pub fn v_hx(a: f64, b: f64, o: i32) -> f64 {
    hx(a, b, o)
}
#[no_mangle]
pub fn v_sx(a: f64, b: f64, o: i32) -> f64 {
    sx(a, b, o)
}
