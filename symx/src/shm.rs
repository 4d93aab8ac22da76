//! Memory shared by the worker processes: a work counter and a table of solver verdicts.
use crate::z3::Res;
use std::sync::atomic::{AtomicU64, Ordering::*};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const SLOTS: usize = 1 << 20;
const VALS: usize = 12;
const W: usize = 16;

#[derive(Clone, Copy)]
pub struct Shared {
    base: *const AtomicU64,
}

impl Shared {
    /// anonymous memory, or a file that the runs of one check share
    pub fn new(file: Option<&str>) -> Shared {
        let len = (SLOTS * W + 16) * 8;
        let p = match file {
            None => unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21 | 0x4000, -1, 0) },
            Some(f) => {
                use std::os::fd::AsRawFd;
                let f = std::fs::OpenOptions::new()
                    .read(true)
                    .write(true)
                    .create(true)
                    .truncate(false)
                    .open(f)
                    .expect("cache file");
                f.set_len(len as u64).expect("cache file");
                unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) }
            }
        };
        assert!(p as isize != -1, "mmap failed");
        Shared {
            base: p as *const AtomicU64,
        }
    }
    pub fn clear_counters(&self) {
        for i in 0..16 {
            self.at(i).store(0, SeqCst);
        }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.base.add(i) }
    }
    /// words 0..16: counters
    pub fn counter(&self, i: usize) -> &AtomicU64 {
        self.at(i)
    }
    pub fn get(&self, key: u128) -> Option<(Res, Vec<(u32, u64)>)> {
        let (h, l) = ((key >> 64) as u64, key as u64);
        for j in 0..32 {
            let s = 16 + ((l as usize).wrapping_add(j) % SLOTS) * W;
            match self.at(s).load(Acquire) {
                0 => return None,
                1 => continue,
                _ => {}
            }
            if self.at(s + 1).load(Relaxed) == h && self.at(s + 2).load(Relaxed) == l {
                let v = self.at(s + 3).load(Relaxed);
                let n = (v >> 8) as usize;
                let vals = (0..n).map(|i| (i as u32, self.at(s + 4 + i).load(Relaxed))).collect();
                return Some((if v & 255 == 1 { Res::Sat } else { Res::Unsat }, vals));
            }
        }
        None
    }
    pub fn put(&self, key: u128, r: Res, m: &[(u32, u64)]) {
        let code = match r {
            Res::Sat => 1,
            Res::Unsat => 2,
            Res::Unknown => return,
        };
        let n = m.iter().map(|x| x.0 as usize + 1).max().unwrap_or(0);
        // every canonical variable must have a value
        if n > VALS || n != m.len() {
            return;
        }
        let (h, l) = ((key >> 64) as u64, key as u64);
        for j in 0..32 {
            let s = 16 + ((l as usize).wrapping_add(j) % SLOTS) * W;
            if self.at(s).compare_exchange(0, 1, AcqRel, Relaxed).is_ok() {
                self.at(s + 1).store(h, Relaxed);
                self.at(s + 2).store(l, Relaxed);
                self.at(s + 3).store(code | (n as u64) << 8, Relaxed);
                for &(i, x) in m {
                    self.at(s + 4 + i as usize).store(x, Relaxed);
                }
                self.at(s).store(2, Release);
                return;
            }
        }
    }
}
