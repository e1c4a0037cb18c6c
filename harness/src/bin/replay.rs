//! Runs one harness natively on the bytes of a solver model.
use std::sync::Mutex;
struct St {
    w: Vec<u8>,
    i: usize,
    p: Vec<u64>,
    h: u64,
}
fn trace(m: &str) {
    let mut s = ST.lock().unwrap();
    if s.h == 0 {
        s.h = 0xcbf29ce484222325;
    }
    for b in m.bytes().chain([10u8]) {
        s.h = (s.h ^ b as u64).wrapping_mul(0x100000001b3);
    }
}
static ST: Mutex<St> = Mutex::new(St { w: Vec::new(), i: 0, p: Vec::new(), h: 0 });

#[no_mangle]
pub extern "C" fn sx_sym(p: *mut u8, n: usize, _name: *const u8, _nl: usize) {
    let mut s = ST.lock().unwrap();
    for k in 0..n {
        let b = *s.w.get(s.i).unwrap_or(&0);
        s.i += 1;
        unsafe { *p.add(k) = b };
    }
}
#[no_mangle]
pub extern "C" fn sx_assume(c: bool) {
    if !c {
        println!("REPLAY: assumption not met");
        std::process::exit(0);
    }
}
fn text(m: *const u8, ml: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(m, ml)).to_string() }
}
#[no_mangle]
pub extern "C" fn sx_check(c: bool, m: *const u8, ml: usize) {
    trace(&text(m, ml));
    if !c {
        println!("REPLAY: FAILED check: {}", text(m, ml));
    }
}
#[no_mangle]
pub extern "C" fn sx_cover(m: *const u8, ml: usize) {
    let t = text(m, ml);
    trace(&t);
    println!("REPLAY: cover {}", t);
}
#[no_mangle]
pub extern "C" fn sx_end() {
    println!("REPLAY: finished {:016x}", ST.lock().unwrap().h);
    std::process::exit(0);
}
#[no_mangle]
pub extern "C" fn sx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sx_param(i: u64) -> u64 {
    *ST.lock().unwrap().p.get(i as usize).unwrap_or(&0)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match hn::table(&a[1]) {
        Some(f) => f,
        None => {
            println!("REPLAY: no harness {}", a[1]);
            std::process::exit(2)
        }
    };
    let h = a[2].as_bytes();
    {
        let mut s = ST.lock().unwrap();
        let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        s.w = h.chunks(2).filter(|c| c.len() == 2).map(|c| d(c[0]) * 16 + d(c[1])).collect();
        s.p = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        println!("REPLAY: FAILED panic at {}: {}", l, m);
        std::process::exit(1);
    }));
    f();
    println!("REPLAY: finished {:016x}", ST.lock().unwrap().h);
}
