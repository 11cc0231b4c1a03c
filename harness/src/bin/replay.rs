//! Runs one harness on the real code with the concrete values of a counterexample.
//! usage: replay FILE [ATTEMPTS OUT SEED]
//! Attempt 0 uses exactly the values of the file; later attempts keep its choices and (every other
//! attempt) its integers and draw the remaining values anew.  Exit 1 if an assertion failed or the code
//! panicked; the values used are then written to OUT.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct St {
    vals: Vec<(String, Option<u64>)>,
    used: Vec<(String, u64)>,
    pos: usize,
    attempt: u64,
    rng: u64,
    style: u64,
    fail: Option<String>,
}

thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));

struct Skip;

fn rnd(s: &mut St) -> u64 {
    s.rng = s.rng.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = s.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn unit(s: &mut St) -> f64 {
    (rnd(s) >> 11) as f64 / (1u64 << 53) as f64
}

fn next(kind: &str, gen: impl Fn(&mut St) -> u64) -> u64 {
    ST.with(|s| {
        let s = &mut *s.borrow_mut();
        let given = match s.vals.get(s.pos) {
            Some((k, v)) if k == kind => *v,
            _ => None,
        };
        s.pos += 1;
        let float = kind.starts_with('f');
        let keep = s.attempt == 0 || kind == "choice" || (!float && s.attempt % 2 == 1);
        let v = match given {
            Some(v) if keep => v,
            _ => gen(s),
        };
        s.used.push((kind.to_string(), v));
        v
    })
}

fn genf(s: &mut St) -> f64 {
    let x = unit(s) * 2.0 - 1.0;
    match s.style {
        0 => x,
        1 => {
            if rnd(s) % 4 == 0 {
                x
            } else {
                x * 1e-3
            }
        }
        2 => {
            if rnd(s) % 6 == 0 {
                0.0
            } else {
                x * 2.0
            }
        }
        3 => {
            if rnd(s) % 3 == 0 {
                x * 1e-5
            } else {
                x
            }
        }
        _ => {
            let e = (rnd(s) % 9) as i32 - 6;
            x * 10f64.powi(e)
        }
    }
}

#[no_mangle]
pub extern "C" fn v_int(lo: u64, hi: u64) -> u64 {
    if lo == hi {
        return lo;
    }
    let v = next("int", |s| {
        let span = hi.wrapping_sub(lo).wrapping_add(1);
        if span == 0 {
            rnd(s)
        } else {
            lo + rnd(s) % span
        }
    });
    v.clamp(lo, hi)
}
#[no_mangle]
pub extern "C" fn v_choice(n: u64) -> u64 {
    next("choice", |s| rnd(s) % n) % n
}
#[no_mangle]
pub extern "C" fn v_concrete(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn v_f64() -> f64 {
    f64::from_bits(next("f64", |s| genf(s).to_bits()))
}
#[no_mangle]
pub extern "C" fn v_f32() -> f32 {
    f64::from_bits(next("f32", |s| ((genf(s) as f32) as f64).to_bits())) as f32
}
#[no_mangle]
pub extern "C" fn v_f64r(lo: f64, hi: f64) -> f64 {
    f64::from_bits(next("f64r", |s| {
        let u = unit(s);
        let v = if s.style == 4 && lo >= 0.0 {
            let a = lo.max(hi * 1e-12).ln();
            (a + u * (hi.ln() - a)).exp()
        } else {
            lo + u * (hi - lo)
        };
        v.clamp(lo, hi).to_bits()
    }))
    .max(lo)
    .min(hi)
}
#[no_mangle]
pub extern "C" fn v_f32r(lo: f32, hi: f32) -> f32 {
    let v = f64::from_bits(next("f32r", |s| {
        let u = unit(s);
        (((lo as f64) + u * (hi as f64 - lo as f64)) as f32 as f64).to_bits()
    })) as f32;
    v.max(lo).min(hi)
}
#[no_mangle]
pub extern "C" fn v_i16() -> i16 {
    next("i16", |s| rnd(s) & 0xffff) as u16 as i16
}
#[no_mangle]
pub extern "C" fn v_i32() -> i32 {
    next("i32", |s| rnd(s) & 0xffff_ffff) as u32 as i32
}
#[no_mangle]
pub extern "C" fn v_bool() -> bool {
    next("bool", |s| rnd(s) & 1) & 1 == 1
}
#[no_mangle]
pub extern "C" fn v_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Skip));
    }
}
fn fail(m: String) {
    ST.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.fail.is_none() {
            s.fail = Some(m);
        }
    })
}
#[no_mangle]
pub extern "C" fn v_assert(c: bool, id: u64) {
    if !c {
        fail(format!("assertion {}", id));
    }
}
#[no_mangle]
pub extern "C" fn v_eq_f64(a: f64, b: f64, id: u64) {
    v_out(a);
    v_out(b);
    let same = a == b || (a.is_nan() && b.is_nan()) || {
        let m = a.abs().max(b.abs());
        let tol = if id >= 100000 { 1e-5 } else { 1e-9 };
        (a - b).abs() <= tol * m.max(1e-3)
    };
    if !same {
        fail(format!("assertion {}: {:e} differs from {:e}", id, a, b));
    }
}
#[no_mangle]
pub extern "C" fn v_eq_u64(a: u64, b: u64, id: u64) {
    v_out(f64::from_bits(a));
    v_out(f64::from_bits(b));
    if a != b {
        fail(format!("assertion {}: {} differs from {}", id, a, b));
    }
}
#[no_mangle]
pub extern "C" fn v_cover(_id: u64) {}
#[no_mangle]
pub extern "C" fn v_out(x: f64) {
    if std::env::var_os("VOUT").is_some() {
        println!("OUT {:016x}", x.to_bits());
    }
}
#[no_mangle]
pub extern "C" fn v_buffer(len_bytes: u64, kind: u64) -> *const u8 {
    let n = (len_bytes / 8 + 2) as usize;
    let mut b: Vec<f64> = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(match kind {
            1 => ST.with(|s| genf(&mut s.borrow_mut())),
            _ => ST.with(|s| f64::from_bits(rnd(&mut s.borrow_mut()) & 0xbfff_ffff_bfff_ffff)),
        });
    }
    Box::leak(b.into_boxed_slice()).as_ptr() as *const u8
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub extern "C" fn v_mxcsr_get() -> u32 {
    let mut v: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v) };
    v & !0x3f
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub extern "C" fn v_mxcsr_set(v: u32) {
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &v) };
}
#[no_mangle]
pub extern "C" fn v_native() -> u64 {
    1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let attempts: u64 = a.get(2).map(|x| x.parse().unwrap()).unwrap_or(1);
    let seed: u64 = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(1);
    let mut name = String::new();
    let mut args = vec![];
    let mut vals = vec![];
    let mut head = String::new();
    for l in text.lines() {
        if l.starts_with('#') || l.starts_with("feature") {
            head.push_str(l);
            head.push('\n');
            continue;
        }
        let mut w = l.split_whitespace();
        let k = match w.next() {
            Some(k) => k,
            None => continue,
        };
        if k == "fn" {
            name = w.next().unwrap().to_string();
            args = w.map(|x| x.parse::<u64>().unwrap()).collect();
            head.push_str(l);
            head.push('\n');
            continue;
        }
        let v = w.next().unwrap();
        let val = if v == "-" {
            None
        } else if k.starts_with('f') {
            Some(u64::from_str_radix(v, 16).unwrap())
        } else {
            Some(v.parse::<u64>().unwrap())
        };
        vals.push((k.to_string(), val));
    }
    if std::env::var_os("VLOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let (name, args, head) = (&name, &args, &head);
    for attempt in 0..attempts {
        ST.with(|s| {
            *s.borrow_mut() = St {
                vals: vals.clone(),
                attempt,
                rng: seed.wrapping_mul(7919).wrapping_add(attempt),
                style: attempt % 5,
                ..St::default()
            }
        });
        let r = catch_unwind(AssertUnwindSafe(|| h::dispatch(name, args)));
        let mx = 0x1f80u32;
        v_mxcsr_set(mx);
        match r {
            Ok(true) => {}
            Ok(false) => {
                eprintln!("no harness {}", name);
                std::process::exit(2);
            }
            Err(e) => {
                if e.downcast_ref::<Skip>().is_some() {
                    continue;
                }
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                fail(format!("panic: {}", m));
            }
        }
        let (f, used) = ST.with(|s| {
            let s = s.borrow();
            (s.fail.clone(), s.used.clone())
        });
        if let Some(m) = f {
            println!("FAIL {} (attempt {})", m, attempt);
            if let Some(o) = a.get(3) {
                let mut t = head.clone();
                for (k, v) in used {
                    if k.starts_with('f') {
                        t.push_str(&format!("{} {:016x}\n", k, v));
                    } else {
                        t.push_str(&format!("{} {}\n", k, v));
                    }
                }
                std::fs::write(o, t).unwrap();
            }
            std::process::exit(1);
        }
    }
    println!("OK");
}
