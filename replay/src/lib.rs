//! Native execution of the harnesses on one concrete model: the functions that the executor gives
//! symbolic meaning are ordinary functions over a table of values here.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::ffi::{c_char, CStr};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::OnceLock;

#[path = "../../harness/src/lib.rs"]
pub mod hx;

struct Data {
    ccc: HashMap<u32, u32>,
    dec: [HashMap<u32, Vec<u32>>; 3],
    pair: HashMap<(u32, u32), u32>,
    prop: Vec<HashMap<u32, u32>>,
}
/// counts the bytes the harness (with the crate under test) holds on the heap
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Count = Count;
static BASE: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
extern "C" fn symx_heap() -> usize {
    LIVE.load(Relaxed).wrapping_sub(BASE.load(Relaxed))
}
static DATA: OnceLock<Data> = OnceLock::new();
static MODEL: OnceLock<HashMap<u32, u32>> = OnceLock::new();

fn load(path: &str) -> Data {
    let mut d = Data {
        ccc: HashMap::new(),
        dec: Default::default(),
        pair: HashMap::new(),
        prop: vec![HashMap::new(); 6],
    };
    let h = |s: &str| u32::from_str_radix(s, 16).unwrap();
    for l in std::fs::read_to_string(path).expect("reference data").lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "ccc" => {
                for c in h(f[1])..=h(f[2]) {
                    d.ccc.insert(c, f[3].parse().unwrap());
                }
            }
            "dec" | "kdec" | "cjk" => {
                let k = match f[0] {
                    "dec" => 0,
                    "kdec" => 1,
                    _ => 2,
                };
                d.dec[k].insert(h(f[1]), f[2..].iter().map(|x| h(x)).collect());
            }
            "pair" => {
                d.pair.insert((h(f[1]), h(f[2])), h(f[3]));
            }
            "prop" => {
                let k: usize = f[1].parse().unwrap();
                for c in h(f[2])..=h(f[3]) {
                    d.prop[k].insert(c, f[4].parse().unwrap());
                }
            }
            _ => {}
        }
    }
    // Hangul syllables, by the arithmetic of the Unicode Standard, chapter 3.12
    for s in 0xAC00..0xAC00 + 11172u32 {
        let i = s - 0xAC00;
        let mut v = vec![0x1100 + i / 588, 0x1161 + i % 588 / 28];
        if i % 28 != 0 {
            v.push(0x11A7 + i % 28);
        }
        d.dec[0].insert(s, v.clone());
        d.dec[1].insert(s, v);
    }
    d
}
fn stop(code: i32, what: &str) -> ! {
    println!("{}", what);
    std::process::exit(code)
}
fn data() -> &'static Data {
    DATA.get().unwrap()
}
/// reads the reference data and the model ("0=75,1=301"), runs the harness f
/// # Safety
/// the arguments are C strings, f is a harness
#[no_mangle]
pub unsafe extern "C" fn replay_run(refdata: *const c_char, model: *const c_char, f: extern "C" fn()) -> i32 {
    let s = |p| CStr::from_ptr(p).to_str().unwrap();
    let _ = DATA.set(load(s(refdata)));
    let m = s(model)
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (a, b) = x.split_once('=').unwrap();
            (a.parse().unwrap(), u32::from_str_radix(b, 16).unwrap())
        })
        .collect();
    let _ = MODEL.set(m);
    println!("start");
    BASE.store(LIVE.load(Relaxed), Relaxed);
    f();
    0
}
#[no_mangle]
extern "C" fn symx_char(i: u32, ranges: *const [u32; 2], n: usize) -> u32 {
    let r: &[[u32; 2]] = if n == 0 {
        &[[0, 0xD7FF], [0xE000, 0x10FFFF]]
    } else {
        unsafe { std::slice::from_raw_parts(ranges, n) }
    };
    match MODEL.get().unwrap().get(&i) {
        None => r[0][0],
        Some(&v) => {
            if !r.iter().any(|x| x[0] <= v && v <= x[1]) {
                stop(20, &format!("value {:x} of variable {} is outside its domain", v, i));
            }
            v
        }
    }
}
#[no_mangle]
extern "C" fn symx_assume(c: bool) {
    if !c {
        stop(20, "an assumption of the harness does not hold for this model");
    }
}
#[no_mangle]
extern "C" fn symx_check(c: bool, id: u32) {
    if !c {
        stop(10, &format!("check {} failed", id));
    }
}
#[no_mangle]
extern "C" fn symx_reach(id: u32) {
    println!("reach {}", id);
}
#[no_mangle]
extern "C" fn ref_ccc(c: u32) -> u32 {
    data().ccc.get(&c).copied().unwrap_or(0)
}
#[no_mangle]
extern "C" fn ref_len(form: u32, c: u32) -> u32 {
    data().dec[form as usize].get(&c).map(|v| v.len() as u32).unwrap_or(0)
}
#[no_mangle]
extern "C" fn ref_at(form: u32, c: u32, i: u32) -> u32 {
    data().dec[form as usize].get(&c).and_then(|v| v.get(i as usize).copied()).unwrap_or(0)
}
#[no_mangle]
extern "C" fn ref_pair(a: u32, b: u32) -> u32 {
    data().pair.get(&(a, b)).copied().unwrap_or(0)
}
#[no_mangle]
extern "C" fn ref_prop(k: u32, c: u32) -> u32 {
    data().prop[k as usize].get(&c).copied().unwrap_or(0)
}
