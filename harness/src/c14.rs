//! C14, C15: iterator contract, no panic
use super::common::*;
use core::fmt::{self, Write};
use unicode_normalization::char as uc;
use unicode_normalization::*;

const LAT: [[u32; 2]; 2] = [[0x41, 0x5A], [0x61, 0x7A]];
const ONE: [[u32; 2]; 1] = [[0x75, 0x75]];
const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];
#[inline(always)]
fn two() -> Txt {
    Txt::of(&anys::<2>(0))
}
#[inline(always)]
fn three() -> Txt {
    Txt::of(&anys::<3>(0))
}
#[inline(always)]
fn lm3() -> Txt {
    Txt::of(&[among(0, &LAT), mark(1), mark(2), mark(3)])
}
#[inline(always)]
fn lm2s() -> Txt {
    Txt::of(&[among(0, &ONE), mark(1), mark(2), any(3)])
}
/// Greek letters take up to three marks
#[inline(always)]
fn gm3() -> Txt {
    Txt::of(&[among(0, &[[0x391, 0x3C9]]), mark(1), mark(2), mark(3)])
}
#[inline(always)]
fn jamo() -> Txt {
    let a = [[0x1100, 0x1112], [0xAC00, 0xAC1C]];
    Txt::of(&[among(0, &a), among(1, &[[0x1161, 0x1175]]), among(2, &[[0x11A7, 0x11C3]]), among(3, &a), among(4, &[[0x1161, 0x1175]])])
}
/// a run that does not fit the inline buffers
#[inline(always)]
fn long() -> Txt {
    let mut t = Txt::of(&[among(0, &ONE)]);
    run(&mut t, 2, 7);
    t.push(mark(1));
    run(&mut t, 1, 3);
    t.push(among(2, &LAT));
    t.push(mark(3));
    t
}
/// runs around the limit of the stream-safe process
#[inline(always)]
fn limit() -> Txt {
    let mut t = Txt::of(&[any(0)]);
    run(&mut t, 2, 29);
    t.push(any(1));
    t.push(any(2));
    t
}
#[inline(always)]
fn cjk() -> Txt {
    Txt::of(&[among(0, &[[0x2F7FF, 0x2F801]]), any(1), among(2, &[[0xF8FF, 0xF901]])])
}

/// size_hint encloses what is still to come; None stays None
macro_rules! hint {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = collect(c.it().$m());
            let mut it = c.it().$m();
            let mut k = 0;
            loop {
                let (lo, hi) = it.size_hint();
                check(lo <= all.n - k, 1);
                if let Some(h) = hi {
                    check(h >= all.n - k, 2);
                }
                match it.next() {
                    Some(x) => {
                        check(k < all.n, 3);
                        check(x as u32 == all.v[k], 4);
                    }
                    None => break,
                }
                k += 1;
            }
            check(k == all.n, 5);
            check(it.next().is_none(), 6);
            check(it.next().is_none(), 6);
            check(it.size_hint().0 == 0, 7);
            check(it.next().is_none(), 6);
            reach(1);
        }
    };
}
hint!(h_c14_hint_nfd, nfd, two());
hint!(h_c14_hint_nfc, nfc, two());
hint!(h_c14_hint_nfkd, nfkd, two());
hint!(h_c14_hint_nfkc, nfkc, two());
hint!(h_c14_hint_cjk, cjk_compat_variants, two());
hint!(h_c14_hint_ss, stream_safe, two());
hint!(h_c14_hint_nfd_m, nfd, lm3());
hint!(h_c14_hint_nfc_m, nfc, lm3());
hint!(h_c14_hint_nfc_g, nfc, gm3());
hint!(h_c14_hint_nfkc_j, nfkc, jamo());
hint!(h_c14_hint_nfkd3, nfkd, three());
hint!(h_c14_hint_nfc_l, nfc, long());
hint!(h_c14_hint_nfd_l, nfd, long());
hint!(h_c14_hint_ss_l, stream_safe, limit());

/// a clone taken at any point yields the rest, whichever of the two is consumed first
macro_rules! cloned {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = collect(c.it().$m());
            let mut it = c.it().$m();
            let mut k = 0;
            loop {
                // clone consumed first, then a second original
                let a = it.clone();
                let b = a.clone();
                drive(a, &all.v[k..all.n], 1);
                drive(b, &all.v[k..all.n], 4);
                let keep = it.clone();
                match it.next() {
                    Some(x) => {
                        check(k < all.n, 7);
                        check(x as u32 == all.v[k], 8);
                    }
                    None => break,
                }
                // the original has moved on, the clone has not
                drive(keep, &all.v[k..all.n], 9);
                k += 1;
            }
            check(k == all.n, 12);
            reach(1);
        }
    };
}
cloned!(h_c14_clone_nfd, nfd, two());
cloned!(h_c14_clone_nfc, nfc, two());
cloned!(h_c14_clone_nfkd, nfkd, two());
cloned!(h_c14_clone_nfkc, nfkc, two());
cloned!(h_c14_clone_cjk, cjk_compat_variants, cjk());
cloned!(h_c14_clone_nfd_m, nfd, lm3());
cloned!(h_c14_clone_nfc_m, nfc, lm3());
cloned!(h_c14_clone_nfc_s, nfc, lm2s());
cloned!(h_c14_clone_nfd_l, nfd, long());
cloned!(h_c14_clone_nfc_l, nfc, long());

struct Sink {
    t: Txt,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            self.t.push(c as u32);
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.t.push(c as u32);
        Ok(())
    }
}
/// Display prints what is still to come and consumes nothing
macro_rules! display {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = collect(c.it().$m());
            let mut it = c.it().$m();
            let mut k = 0;
            loop {
                let mut s = Sink { t: Txt::new() };
                check(write!(s, "{}", it).is_ok(), 1);
                check_same(s.t.s(), &all.v[k..all.n], 2);
                match it.next() {
                    Some(x) => {
                        check(k < all.n, 4);
                        check(x as u32 == all.v[k], 5);
                    }
                    None => break,
                }
                k += 1;
            }
            check(k == all.n, 6);
            reach(1);
        }
    };
}
display!(h_c14_disp_nfd, nfd, two());
display!(h_c14_disp_nfc, nfc, two());
display!(h_c14_disp_nfkd, nfkd, two());
display!(h_c14_disp_nfkc, nfkc, two());
display!(h_c14_disp_cjk, cjk_compat_variants, cjk());
display!(h_c14_disp_nfd_m, nfd, lm3());
display!(h_c14_disp_nfc_m, nfc, lm3());
display!(h_c14_disp_nfc_s, nfc, lm2s());
display!(h_c14_disp_nfc_l, nfc, long());
display!(h_c14_disp_nfd_l, nfd, long());

// ------------------------------------------------------------------ C15
/// every function of single characters and pairs (panics, overflow and stray accesses are
/// violations wherever they happen)
#[inline(always)]
fn valid(c: char) {
    let c = c as u32;
    check(c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF), 1);
}
#[no_mangle]
pub extern "C" fn h_c15_chars() {
    let a = chr(any(0));
    let b = chr(any(1));
    if let Some(c) = uc::compose(a, b) {
        valid(c);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c15_char() {
    let a = chr(any(0));
    let mut n = 0;
    uc::decompose_canonical(a, |c| {
        valid(c);
        n += 1;
    });
    check(n >= 1 && n <= 4, 2);
    n = 0;
    uc::decompose_compatible(a, |c| {
        valid(c);
        n += 1;
    });
    check(n >= 1 && n <= 18, 3);
    n = 0;
    uc::decompose_cjk_compat_variants(a, |c| {
        valid(c);
        n += 1;
    });
    check(n >= 1 && n <= 2, 4);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c15_props() {
    let a = chr(any(0));
    let x = uc::canonical_combining_class(a) as u32;
    let y = uc::is_combining_mark(a) as u32;
    let z = uc::is_public_assigned(a) as u32;
    check(x <= 254 && y <= 1 && z <= 1, 1);
    reach(1);
}
macro_rules! total {
    ($name:ident, $m:ident, $max:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let c = t.chars();
            let mut n = 0;
            for x in c.it().$m() {
                valid(x);
                n += 1;
            }
            check(n <= t.n * $max, 2);
            reach(1);
        }
    };
}
total!(h_c15_nfd, nfd, 4, two());
total!(h_c15_nfc, nfc, 3, two());
total!(h_c15_nfkd, nfkd, 18, two());
total!(h_c15_nfkc, nfkc, 18, two());
total!(h_c15_cjk, cjk_compat_variants, 2, two());
total!(h_c15_ss, stream_safe, 2, two());
total!(h_c15_nfkd3, nfkd, 18, three());
total!(h_c15_nfd3, nfd, 4, three());
total!(h_c15_nfc3, nfc, 3, three());
total!(h_c15_ss_l, stream_safe, 2, limit());
total!(h_c15_nfd_l, nfd, 4, limit());
total!(h_c15_nfc_l, nfc, 3, long());
total!(h_c15_nfkc_l, nfkc, 18, long());
macro_rules! preds {
    ($name:ident, $t:expr, $($p:ident $q:ident),*) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let u = Utf8::of(t.s());
            $(
                let a = $p(u.str());
                let b = $q(u.str().chars());
                check(a | (b != IsNormalized::Yes), 1);
                check(!a | (b != IsNormalized::No), 2);
            )*
            reach(1);
        }
    };
}
preds!(h_c15_preds_d, two(), is_nfd is_nfd_quick, is_nfkd is_nfkd_quick, is_nfd_stream_safe is_nfd_stream_safe_quick);
preds!(h_c15_preds_c, two(), is_nfc is_nfc_quick);
preds!(h_c15_preds_kc, two(), is_nfkc is_nfkc_quick);
preds!(h_c15_preds_cs, two(), is_nfc_stream_safe is_nfc_stream_safe_quick);
preds!(h_c15_preds_l, limit(), is_nfd is_nfd_quick, is_nfd_stream_safe is_nfd_stream_safe_quick);
preds!(h_c15_preds_0, Txt::new(), is_nfd is_nfd_quick, is_nfkd is_nfkd_quick, is_nfd_stream_safe is_nfd_stream_safe_quick,
    is_nfc is_nfc_quick, is_nfkc is_nfkc_quick, is_nfc_stream_safe is_nfc_stream_safe_quick);
/// sources without an end, with the largest size_hint there is
macro_rules! endless {
    ($name:ident, $m:ident) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a = chr(any(0));
            assume(r_len(KD, a as u32) == 0 || r_ccc(r_at(KD, a as u32, 0)) == 0);
            assume(r_ccc(a as u32) == 0);
            let mut it = core::iter::repeat(a).$m();
            let mut i = 0;
            while i < 4 {
                let (lo, hi) = it.size_hint();
                check(hi.is_none(), 2);
                check(hi.is_none() | (lo > 0), 3);
                match it.next() {
                    Some(c) => valid(c),
                    None => check(false, 4),
                }
                i += 1;
            }
            reach(1);
        }
    };
}
endless!(h_c15_endless_nfd, nfd);
endless!(h_c15_endless_nfkd, nfkd);
endless!(h_c15_endless_nfc, nfc);
endless!(h_c15_endless_nfkc, nfkc);
endless!(h_c15_endless_cjk, cjk_compat_variants);
endless!(h_c15_endless_ss, stream_safe);
