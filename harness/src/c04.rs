//! C04, C05, C07: predicates and quick checks
use super::common::*;
use unicode_normalization::*;

#[inline(always)]
fn any_n<const N: usize>() -> Txt {
    Txt::of(&anys::<N>(0))
}
const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];
const LAT: [[u32; 2]; 2] = [[0x41, 0x5A], [0x61, 0x7A]];
const ONE: [[u32; 2]; 1] = [[0x75, 0x75]];
#[inline(always)]
fn lat_marks<const N: usize>() -> Txt {
    let mut t = Txt::of(&[among(0, &LAT)]);
    let mut i = 0;
    while i < N {
        t.push(mark(1 + i as u32));
        i += 1;
    }
    t
}

macro_rules! pred {
    ($name:ident, $f:ident, $form:expr, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let u = Utf8::of(t.s());
            let w = norm($form, $comp, t.s());
            let ok = same(w.s(), t.s());
            check($f(u.str()) == ok, 1);
            reach(1 + ok as u32);
        }
    };
}
pred!(h_c04_nfd2, is_nfd, D, false, any_n::<2>());
pred!(h_c04_nfd3, is_nfd, D, false, any_n::<3>());
pred!(h_c04_nfkd2, is_nfkd, KD, false, any_n::<2>());
pred!(h_c04_nfkd3, is_nfkd, KD, false, any_n::<3>());
pred!(h_c04_nfc2, is_nfc, D, true, any_n::<2>());
pred!(h_c04_nfc3, is_nfc, D, true, any_n::<3>());
pred!(h_c04_nfkc2, is_nfkc, KD, true, any_n::<2>());
pred!(h_c04_nfkc3, is_nfkc, KD, true, any_n::<3>());
pred!(h_c04_nfc_m3, is_nfc, D, true, lat_marks::<3>());
pred!(h_c04_nfkc_m3, is_nfkc, KD, true, lat_marks::<3>());
pred!(h_c04_nfd_m4, is_nfd, D, false, lat_marks::<4>());

macro_rules! quick {
    ($name:ident, $f:ident, $form:expr, $comp:expr, $ss:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let w = norm($form, $comp, t.s());
            let mut ok = same(w.s(), t.s());
            if $ss {
                ok = ok & (longest_run(t.s()) <= 30);
            }
            match $f(t.chars().it()) {
                IsNormalized::Yes => check(ok, 1),
                IsNormalized::No => check(!ok, 2),
                IsNormalized::Maybe => check($comp, 3),
            }
            reach(1 + ok as u32);
        }
    };
}
quick!(h_c05_nfd2, is_nfd_quick, D, false, false, any_n::<2>());
quick!(h_c05_nfd3, is_nfd_quick, D, false, false, any_n::<3>());
quick!(h_c05_nfkd2, is_nfkd_quick, KD, false, false, any_n::<2>());
quick!(h_c05_nfkd3, is_nfkd_quick, KD, false, false, any_n::<3>());
quick!(h_c05_nfc2, is_nfc_quick, D, true, false, any_n::<2>());
quick!(h_c05_nfc3, is_nfc_quick, D, true, false, any_n::<3>());
quick!(h_c05_nfkc2, is_nfkc_quick, KD, true, false, any_n::<2>());
quick!(h_c05_nfkc3, is_nfkc_quick, KD, true, false, any_n::<3>());
quick!(h_c05_nfc_m3, is_nfc_quick, D, true, false, lat_marks::<3>());
quick!(h_c05_nfd_m4, is_nfd_quick, D, false, false, lat_marks::<4>());
quick!(h_c05_ss_nfd2, is_nfd_stream_safe_quick, D, false, true, any_n::<2>());
quick!(h_c05_ss_nfc2, is_nfc_stream_safe_quick, D, true, true, any_n::<2>());

/// n concrete marks of one class with symbolic characters around them
#[inline(always)]
fn around(pre: &[[u32; 2]], n: usize, mid: &[[u32; 2]], m: usize, post: &[[u32; 2]]) -> Txt {
    let mut t = Txt::new();
    if !pre.is_empty() {
        t.push(among(0, pre));
    }
    pad(&mut t, n);
    if !mid.is_empty() {
        t.push(among(1, mid));
    }
    pad(&mut t, m);
    if !post.is_empty() {
        t.push(among(2, post));
    }
    t
}
/// n marks of class 230 that compose with few characters
#[inline(always)]
fn pad(t: &mut Txt, n: usize) {
    let mut i = 0;
    while i < n {
        t.push(0x033D);
        i += 1;
    }
}
macro_rules! ssq {
    ($d:ident, $c:ident, $pd:ident, $pc:ident, $t:expr) => {
        quick!($d, is_nfd_stream_safe_quick, D, false, true, $t);
        quick!($c, is_nfc_stream_safe_quick, D, true, true, $t);
        sspred!($pd, is_nfd_stream_safe, false, $t);
        sspred!($pc, is_nfc_stream_safe, true, $t);
    };
}
macro_rules! sspred {
    ($name:ident, $f:ident, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let u = Utf8::of(t.s());
            let w = norm(D, $comp, t.s());
            let ok = same(w.s(), t.s());
            let ok = ok & same(stream_safe(t.s()).s(), t.s());
            check($f(u.str()) == ok, 1);
            reach(1 + ok as u32);
        }
    };
}
sspred!(h_c07_nfd2, is_nfd_stream_safe, false, any_n::<2>());
sspred!(h_c07_nfc2, is_nfc_stream_safe, true, any_n::<2>());
sspred!(h_c07_nfd3, is_nfd_stream_safe, false, any_n::<3>());
sspred!(h_c07_nfc3, is_nfc_stream_safe, true, any_n::<3>());
// any character, 29 marks, any character, any character
ssq!(h_c05_pre29_nfd, h_c05_pre29_nfc, h_c07_pre29_nfd, h_c07_pre29_nfc, around(&ALL, 29, &ALL, 0, &ALL));
ssq!(h_c05_pre28_nfd, h_c05_pre28_nfc, h_c07_pre28_nfd, h_c07_pre28_nfc, around(&ALL, 28, &ALL, 0, &ALL));
ssq!(h_c05_pre30_nfd, h_c05_pre30_nfc, h_c07_pre30_nfd, h_c07_pre30_nfc, around(&ALL, 30, &ALL, 0, &[]));
// a character in the middle of 14 and 16 marks
ssq!(h_c05_mid_nfd, h_c05_mid_nfc, h_c07_mid_nfd, h_c07_mid_nfc, around(&ONE, 14, &ALL, 16, &[]));
ssq!(h_c05_mid2_nfd, h_c05_mid2_nfc, h_c07_mid2_nfd, h_c07_mid2_nfc, around(&ONE, 1, &ALL, 29, &ALL));
ssq!(h_c05_mid3_nfd, h_c05_mid3_nfc, h_c07_mid3_nfd, h_c07_mid3_nfc, around(&ALL, 30, &ALL, 30, &ALL));
