//! Native replay of a scenario on concrete inputs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

struct S(UnsafeCell<State>);
unsafe impl Sync for S {}
struct State {
    inputs: Vec<u64>,
    pos: usize,
    expect: bool,
    obs: Vec<u64>,
    covers: u64,
    limit: u64,
    live: i64,
    armed: bool,
}
static ST: S = S(UnsafeCell::new(State { inputs: vec![], pos: 0, expect: false, obs: vec![], covers: 0, limit: 1 << 22, live: 0, armed: false }));
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State {
    unsafe { &mut *ST.0.get() }
}

extern "C" {
    fn alarm(s: u32) -> u32;
}

fn finish(msg: &str, code: i32) -> ! {
    let s = st();
    s.armed = false;
    let o: Vec<String> = s.obs.iter().map(|x| x.to_string()).collect();
    println!("OBS {}", o.join(" "));
    println!("COVERS {}", s.covers);
    println!("RESULT {}", msg);
    std::process::exit(code)
}

fn next() -> u64 {
    let s = st();
    let v = match s.inputs.get(s.pos) {
        Some(v) => *v,
        None => finish("INPUTS EXHAUSTED", 3),
    };
    s.pos += 1;
    v
}

#[no_mangle]
pub extern "C" fn vf_u64(lo: u64, hi: u64) -> u64 {
    if lo > hi {
        finish("ASSUME", 3)
    }
    let v = next();
    if v < lo || v > hi {
        finish("RANGE", 3)
    }
    v
}
#[no_mangle]
pub extern "C" fn vf_byte() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn vf_choose(n: u64) -> u64 {
    if n == 0 {
        finish("ASSUME", 3)
    }
    let v = next();
    if v >= n {
        finish("RANGE", 3)
    }
    v
}
#[no_mangle]
pub extern "C" fn vf_assume(c: bool) {
    if !c {
        finish("ASSUME", 3)
    }
}
#[no_mangle]
pub extern "C" fn vf_check(c: bool, code: u64) {
    if !c {
        finish(&format!("CHECK {} failed", code), 1)
    }
}
#[no_mangle]
pub extern "C" fn vf_expect_panic(c: bool) {
    st().expect = c;
}
#[no_mangle]
pub extern "C" fn vf_observe(x: u64) {
    let s = st();
    let a = s.armed;
    s.armed = false;
    s.obs.push(x);
    s.armed = a;
}
#[no_mangle]
pub extern "C" fn vf_cover(x: u64) {
    st().covers |= 1 << (x & 63);
}
#[no_mangle]
pub extern "C" fn vf_ite(_c: bool) {}
#[no_mangle]
pub extern "C" fn vf_limit(n: u64) {
    st().limit = n;
}
#[no_mangle]
pub extern "C" fn vf_live() -> u64 {
    st().live as u64
}
#[no_mangle]
pub extern "C" fn vf_concrete(x: u64) -> u64 {
    x
}

fn guard(n: u64) {
    let s = st();
    if s.armed && n > s.limit {
        finish(&format!("HUGE allocation of {} bytes", n), 1)
    }
}
#[no_mangle]
pub unsafe extern "C" fn vf_alloc(size: u64, align: u64) -> *mut u8 {
    guard(size);
    if st().armed {
        st().live += 1;
    }
    System.alloc(Layout::from_size_align_unchecked(size as usize, align as usize))
}
#[no_mangle]
pub unsafe extern "C" fn vf_alloc_zeroed(size: u64, align: u64) -> *mut u8 {
    guard(size);
    if st().armed {
        st().live += 1;
    }
    System.alloc_zeroed(Layout::from_size_align_unchecked(size as usize, align as usize))
}
#[no_mangle]
pub unsafe extern "C" fn vf_dealloc(p: *mut u8, size: u64, align: u64) {
    if st().armed {
        st().live -= 1;
    }
    System.dealloc(p, Layout::from_size_align_unchecked(size as usize, align as usize))
}
#[no_mangle]
pub unsafe extern "C" fn vf_realloc(p: *mut u8, size: u64, align: u64, new: u64) -> *mut u8 {
    guard(new);
    System.realloc(p, Layout::from_size_align_unchecked(size as usize, align as usize), new as usize)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("list") {
        for (n, _) in harness::TABLE {
            println!("{}", n);
        }
        return;
    }
    let name = &a[2];
    let f = harness::TABLE.iter().find(|x| x.0 == name).unwrap_or_else(|| finish("NO SUCH SCENARIO", 4)).1;
    let txt = std::fs::read_to_string(&a[3]).expect("inputs");
    // lines starting with '#' are comments
    st().inputs = txt.lines().filter(|l| !l.starts_with('#')).flat_map(|l| l.split_whitespace()).filter_map(|x| x.parse().ok()).collect();
    std::panic::set_hook(Box::new(|i| {
        st().armed = false;
        eprintln!("{}", i);
        if st().expect {
            finish("EXPECTED PANIC", 0)
        }
        finish(&format!("PANIC {}", i.to_string().replace('\n', " ")), 1)
    }));
    unsafe { alarm(60) };
    st().armed = true;
    f();
    finish("OK", 0)
}
