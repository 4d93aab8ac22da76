//! Periodic texts, memory held by the adaptors (C20), sharpness of the quick checks (C19), ways of
//! consuming an iterator (C14)
use super::common::*;
use core::fmt::{self, Write};
use unicode_normalization::*;

const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];
const LAT: [[u32; 2]; 2] = [[0x41, 0x5A], [0x61, 0x7A]];

/// few marks of many classes and letters they compose with
#[inline(always)]
fn some(i: u32) -> u32 {
    among(i, &[[0x41, 0x45], [0x300, 0x304], [0x315, 0x317], [0x31B, 0x31B], [0x321, 0x323], [0x334, 0x334], [0x344, 0x345], [0x1100, 0x1101], [0x1161, 0x1162], [0x11A8, 0x11A8], [0xAC00, 0xAC01]])
}

macro_rules! conf {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let w = norm($form, $comp, t.s());
            drive(t.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
conf!(h_c01_per_nfd, nfd, D, false, times(20, &anys::<2>(0)));
conf!(h_c01_per_nfkd, nfkd, KD, false, times(12, &anys::<2>(0)));
conf!(h_c01_per3_nfd, nfd, D, false, times(8, &[some(0), some(1), some(2)]));
conf!(h_c02_per_nfc, nfc, D, true, times(12, &[any(0), mark(1)]));
conf!(h_c02_per_nfkc, nfkc, KD, true, times(12, &[any(0), mark(1)]));
conf!(h_c02_per3_nfc, nfc, D, true, times(8, &[some(0), some(1), some(2)]));
conf!(h_c02_per_any, nfc, D, true, times(6, &anys::<2>(0)));

conf!(h_c01_one_nfd, nfd, D, false, times(150, &anys::<1>(0)));
conf!(h_c01_one_nfkd, nfkd, KD, false, times(35, &anys::<1>(0)));
conf!(h_c02_one_nfc, nfc, D, true, times(150, &anys::<1>(0)));
conf!(h_c02_one_nfkc, nfkc, KD, true, times(35, &anys::<1>(0)));

#[no_mangle]
pub extern "C" fn h_c06_per() {
    let t = times(33, &anys::<2>(0));
    let w = stream_safe(t.s());
    drive(t.chars().it().stream_safe(), w.s(), 1);
    check(longest_run(w.s()) <= 30, 9);
    reach(1);
}
macro_rules! sspred {
    ($name:ident, $f:ident, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let ok = same(norm(D, $comp, t.s()).s(), t.s());
            let ok = ok & same(stream_safe(t.s()).s(), t.s());
            check($f(Utf8::of(t.s()).str()) == ok, 1);
            reach(1 + ok as u32);
        }
    };
}
sspred!(h_c07_per_nfd, is_nfd_stream_safe, false, times(32, &anys::<1>(0)));
sspred!(h_c07_per_nfc, is_nfc_stream_safe, true, times(32, &anys::<1>(0)));

// ------------------------------------------------------------------ C20
/// bytes an adaptor may hold for a text whose longest run of non-starters is l (a decomposition has
/// up to 18 characters, a character waiting takes 8 bytes, vectors grow by doubling)
#[inline(always)]
fn allowed(t: &Txt) -> usize {
    48 * (longest_run(t.s()) as usize + 24)
}
struct Src<'a> {
    v: &'a [char],
    i: usize,
    most: usize,
}
impl<'a> Iterator for Src<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        check(heap() <= self.most, 1);
        let c = self.v.get(self.i).copied();
        if c.is_some() {
            self.i += 1;
        }
        c
    }
}
macro_rules! memory {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let most = allowed(&t);
            let c = t.chars();
            check(heap() == 0, 2);
            {
                let mut it = Src { v: c.s(), i: 0, most }.$m();
                while let Some(_) = it.next() {
                    check(heap() <= most, 3);
                }
                check(heap() <= most, 3);
            }
            check(heap() == 0, 4);
            reach(1);
        }
    };
}
memory!(h_c20_per_nfd, nfd, times(260, &anys::<1>(0)));
memory!(h_c20_per_nfkd, nfkd, times(260, &anys::<1>(0)));
memory!(h_c20_per_nfc, nfc, times(260, &anys::<1>(0)));
memory!(h_c20_per_nfkc, nfkc, times(260, &anys::<1>(0)));
memory!(h_c20_per_cjk, cjk_compat_variants, times(260, &anys::<1>(0)));
memory!(h_c20_per_ss, stream_safe, times(260, &anys::<1>(0)));
memory!(h_c20_seg_nfd, nfd, times(100, &[among(0, &LAT), mark(1), mark(2)]));
memory!(h_c20_seg_nfc, nfc, times(100, &[among(0, &LAT), mark(1), mark(2)]));
memory!(h_c20_seg_nfkc, nfkc, times(100, &[among(0, &LAT), mark(1), mark(2)]));
memory!(h_c20_two_nfd, nfd, times(100, &anys::<2>(0)));
memory!(h_c20_two_nfc, nfc, times(100, &[any(0), mark(1)]));
memory!(h_c20_five_nfd, nfd, times(60, &[0x61, among(0, &[[0x300, 0x345]]), 0x334, 0x301, among(1, &[[0x300, 0x345]]), 0x316, 0x302]));
memory!(h_c20_five_nfc, nfc, times(60, &[0x61, among(0, &[[0x300, 0x345]]), 0x334, 0x301, among(1, &[[0x300, 0x345]]), 0x316, 0x302]));
memory!(h_c20_after_nfd, nfd, runs_then());
memory!(h_c20_after_nfc, nfc, runs_then());
/// dropped before the end, and cloned
macro_rules! dropped {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let c = t.chars();
            let all = collect(c.it().$m());
            check(heap() == 0, 1);
            let mut k = 0;
            while k <= all.n {
                {
                    let mut it = c.it().$m();
                    let mut j = 0;
                    while j < k {
                        it.next();
                        j += 1;
                    }
                    let _other = it.clone();
                }
                check(heap() == 0, 2);
                k += 1;
            }
            let u = Utf8::of(t.s());
            let _ = is_nfc(u.str()) & is_nfd(u.str());
            check(heap() == 0, 3);
            reach(1);
        }
    };
}
dropped!(h_c20_drop_nfd, nfd, dense());
dropped!(h_c20_drop_nfc, nfc, dense());
dropped!(h_c20_drop_nfkc, nfkc, dense());
#[inline(always)]
fn dense() -> Txt {
    let mut t = Txt::of(&[0x61]);
    run(&mut t, 1, 6);
    t.push(mark(0));
    run(&mut t, 0, 3);
    t.push(among(1, &LAT));
    t
}
#[inline(always)]
fn runs_then() -> Txt {
    let mut t = Txt::new();
    let mut i = 0;
    while i < 70 {
        t.push(0x61 + i % 3);
        run(&mut t, i % 3, 5 + i as usize % 3);
        if i % 4 == 1 {
            t.push(0x307);
        }
        i += 1;
    }
    t.push(any(0));
    t.push(mark(1));
    t
}

// ------------------------------------------------------------------ C19
/// the answer of the quick check algorithm of UAX #15 (0 yes, 1 no, 2 maybe), with stream-safety
#[inline(never)]
pub fn uax15(prop: u32, ss: bool, t: &Txt) -> u32 {
    let mut last = 0;
    let mut res = 0;
    let mut i = 0;
    while i < t.n {
        let c = t.v[i];
        let k = r_ccc(c);
        if (last > k) & (k != 0) {
            return 1;
        }
        let q = r_prop(prop, c);
        if q == 1 {
            return 1;
        }
        if q == 2 {
            res = 2;
        }
        last = k;
        i += 1;
    }
    if ss && !same(stream_safe(t.s()).s(), t.s()) {
        return 1;
    }
    res
}
macro_rules! sharp {
    ($name:ident, $f:ident, $prop:expr, $ss:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let r = uax15($prop, $ss, &t);
            let x = $f(t.chars().it());
            match r {
                0 => check(x == IsNormalized::Yes, 1),
                1 => check(x == IsNormalized::No, 2),
                _ => (),
            }
            reach(1 + r);
        }
    };
}
sharp!(h_c19_nfc3, is_nfc_quick, 2, false, Txt::of(&anys::<3>(0)));
sharp!(h_c19_nfkc3, is_nfkc_quick, 3, false, Txt::of(&anys::<3>(0)));
sharp!(h_c19_nfd3, is_nfd_quick, 4, false, Txt::of(&anys::<3>(0)));
sharp!(h_c19_nfkd3, is_nfkd_quick, 5, false, Txt::of(&anys::<3>(0)));
sharp!(h_c19_ss_nfc3, is_nfc_stream_safe_quick, 2, true, Txt::of(&anys::<3>(0)));
sharp!(h_c19_ss_nfd3, is_nfd_stream_safe_quick, 4, true, Txt::of(&anys::<3>(0)));
sharp!(h_c19_nfc4, is_nfc_quick, 2, false, Txt::of(&anys::<4>(0)));
sharp!(h_c19_nfkc4, is_nfkc_quick, 3, false, Txt::of(&anys::<4>(0)));
sharp!(h_c19_mid_nfc, is_nfc_stream_safe_quick, 2, true, mid());
sharp!(h_c19_mid_nfd, is_nfd_stream_safe_quick, 4, true, mid());
sharp!(h_c19_long_nfc, is_nfc_quick, 2, false, longer());
sharp!(h_c19_long_nfkc, is_nfkc_quick, 3, false, longer());
sharp!(h_c19_long_nfd, is_nfd_quick, 4, false, longer());
sharp!(h_c19_long_nfkd, is_nfkd_quick, 5, false, longer());
sharp!(h_c19_long_ss_nfc, is_nfc_stream_safe_quick, 2, true, longer());
sharp!(h_c19_long_ss_nfd, is_nfd_stream_safe_quick, 4, true, longer());
#[inline(always)]
fn mid() -> Txt {
    let mut t = Txt::of(&[any(0)]);
    marks(&mut t, 28);
    t.push(any(1));
    t.push(any(2));
    t
}
#[inline(always)]
fn marks(t: &mut Txt, n: usize) {
    let mut i = 0;
    while i < n {
        t.push(0x033D);
        i += 1;
    }
}
/// text in all forms of many segments, then symbolic characters, twice
#[inline(always)]
fn longer() -> Txt {
    let mut t = Txt::new();
    let mut i = 0;
    while i < 300 {
        t.push([0x41, 0x316, 0x62, 0x334, 0x333, 0x20, 0x4E00, 0x3B1, 0x33D, 0x33D, 0x10480, 0x6F, 0x34F, 0x10FFFF, 0x71][i % 15]);
        i += 1;
    }
    t.push(any(0));
    t.push(0x20);
    t.push(0x3B1);
    t.push(0x33D);
    t.push(any(1));
    marks(&mut t, 30);
    t.push(any(2));
    t
}

// ------------------------------------------------------------------ C14
/// nth, count, last, fold, for_each and collect give what repeated next gives
macro_rules! ways {
    ($name:ident, $m:ident, $step:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = collect(c.it().$m());
            let mut k = 0;
            while k <= all.n {
                // k characters by next, the rest otherwise
                let at = || {
                    let mut it = c.it().$m();
                    let mut j = 0;
                    while j < k {
                        it.next();
                        j += 1;
                    }
                    it
                };
                let left = all.n - k;
                check(at().count() == left, 1);
                let l = at().last();
                check(l.is_some() == (left > 0), 2);
                if let Some(x) = l {
                    check(x as u32 == all.v[all.n - 1], 3);
                }
                let mut n = k;
                let m = at().fold(0usize, |m, x| {
                    check(n < all.n && x as u32 == all.v[n], 4);
                    n += 1;
                    m + 1
                });
                check(m == left, 5);
                n = k;
                at().for_each(|x| {
                    check(n < all.n && x as u32 == all.v[n], 6);
                    n += 1;
                });
                check(n == all.n, 7);
                let mut j = 0;
                while j <= left {
                    let mut it = at();
                    let x = it.nth(j);
                    check(x.is_some() == (j < left), 8);
                    if let Some(x) = x {
                        check(x as u32 == all.v[k + j], 9);
                        drive(it, &all.v[k + j + 1..all.n], 10);
                    }
                    j += $step;
                }
                n = k;
                let mut it = at();
                let p = it.position(|x| {
                    check(n < all.n && x as u32 == all.v[n], 13);
                    n += 1;
                    n == k + 2
                });
                check(p == if left > 1 { Some(1) } else { None }, 14);
                k += $step;
            }
            reach(1);
        }
    };
}
ways!(h_c14_ways_nfd, nfd, 1, Txt::of(&anys::<2>(0)));
ways!(h_c14_ways_nfkd, nfkd, 3, Txt::of(&anys::<1>(0)));
ways!(h_c14_ways_nfc, nfc, 1, Txt::of(&[any(0), mark(1)]));
ways!(h_c14_ways_nfkc, nfkc, 3, Txt::of(&anys::<1>(0)));
ways!(h_c14_ways_cjk, cjk_compat_variants, 1, Txt::of(&anys::<2>(0)));
ways!(h_c14_ways_ss, stream_safe, 1, Txt::of(&anys::<2>(0)));
ways!(h_c14_ways_nfd_m, nfd, 1, dense());
ways!(h_c14_ways_nfc_m, nfc, 1, dense());
ways!(h_c14_ways_ss_l, stream_safe, 15, limit());
#[inline(always)]
fn limit() -> Txt {
    let mut t = Txt::of(&[0x75]);
    run(&mut t, 0, 29);
    t.push(any(1));
    run(&mut t, 0, 2);
    t.push(any(2));
    t
}
/// collect::<String>() is the text in UTF-8
macro_rules! string {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = Utf8::of(collect(c.it().$m()).s());
            let s: String = c.it().$m().collect();
            check(s.len() == all.n, 1);
            let b = s.as_bytes();
            let mut i = 0;
            while i < all.n {
                check(b[i] == all.b[i], 2);
                i += 1;
            }
            reach(1);
        }
    };
}
string!(h_c14_string_nfd, nfd, Txt::of(&anys::<2>(0)));
string!(h_c14_string_nfc, nfc, Txt::of(&[any(0), mark(1)]));
string!(h_c14_string_cjk, cjk_compat_variants, Txt::of(&anys::<2>(0)));

/// a writer that takes so many bytes and then fails
struct Full {
    left: usize,
    t: Utf8,
}
impl Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        for &b in s.as_bytes() {
            self.t.b[self.t.n] = b;
            self.t.n += 1;
        }
        Ok(())
    }
}
/// Display reports the failure of the writer, and what it has written is the beginning of the text
macro_rules! fails {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = Utf8::of(collect(c.it().$m()).s());
            let mut k = 0;
            while k <= all.n {
                let it = c.it().$m();
                let mut w = Full { left: k, t: Utf8::of(&[]) };
                let r = write!(w, "{}", it);
                check(r.is_ok() == (k == all.n), 1);
                check(w.t.n <= all.n, 2);
                let mut i = 0;
                while i < w.t.n {
                    check(w.t.b[i] == all.b[i], 3);
                    i += 1;
                }
                check(!r.is_ok() || w.t.n == all.n, 4);
                k += 1;
            }
            reach(1);
        }
    };
}
fails!(h_c14_fail_nfd, nfd, dense());
fails!(h_c14_fail_nfc, nfc, dense());
fails!(h_c14_fail_nfkd, nfkd, Txt::of(&[among(0, &ALL)]));
fails!(h_c14_fail_nfkc, nfkc, Txt::of(&[among(0, &ALL)]));
fails!(h_c14_fail_cjk, cjk_compat_variants, Txt::of(&anys::<2>(0)));

// ------------------------------------------------------------------ tens of thousands of characters
/// a letter, n marks of one class, a symbolic mark, a letter
#[derive(Clone)]
struct Huge {
    i: usize,
    n: usize,
    m: u32,
}
impl Iterator for Huge {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        let i = self.i;
        self.i += 1;
        if i == 0 {
            Some('x')
        } else if i <= self.n {
            Some('\u{301}')
        } else if i == self.n + 1 {
            Some(chr(self.m))
        } else if i == self.n + 2 {
            Some('z')
        } else {
            self.i -= 1;
            None
        }
    }
}
macro_rules! huge {
    ($name:ident, $m:ident, $n:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let m = among(0, &[[0x0302, 0x0302], [0x033D, 0x033E]]);
            let mut it = Huge { i: 0, n: $n, m }.$m();
            check(it.next() == Some('x'), 1);
            let mut i = 0;
            while i < $n {
                check(it.next() == Some('\u{301}'), 3);
                i += 1;
            }
            check(it.next() == Some(chr(m)), 4);
            check(it.next() == Some('z'), 5);
            check(it.next().is_none(), 6);
            reach(1);
        }
    };
}
huge!(h_c01_huge_nfd, nfd, 66000);
huge!(h_c02_huge_nfc, nfc, 66000);
/// quick checks on the same text
#[no_mangle]
pub extern "C" fn h_c05_huge() {
    let m = among(0, &[[0x0316, 0x0319], [0x0302, 0x0302], [0x033D, 0x033E]]);
    let t = Huge { i: 0, n: 66000, m };
    let ok = r_ccc(m) >= 230;
    check(is_nfd_quick(t.clone()) == if ok { IsNormalized::Yes } else { IsNormalized::No }, 1);
    check(is_nfd_stream_safe_quick(t) == IsNormalized::No, 2);
    reach(1 + ok as u32);
}
/// stream-safe: 30 marks between joiners
#[no_mangle]
pub extern "C" fn h_c06_huge() {
    let m = among(0, &[[0x0316, 0x0319], [0x0302, 0x0302], [0x033D, 0x033E]]);
    let mut it = Huge { i: 0, n: 66000, m }.stream_safe();
    check(it.next() == Some('x'), 1);
    let mut i = 0;
    while i <= 66000 {
        if i > 0 && i % 30 == 0 {
            check(it.next() == Some('\u{34f}'), 2);
        }
        check(it.next() == Some(if i < 66000 { '\u{301}' } else { chr(m) }), 3);
        i += 1;
    }
    check(it.next() == Some('z'), 4);
    check(it.next().is_none(), 5);
    reach(1);
}
/// the 30 characters of HIST over and over, then 'A' (a segment of its own) and three characters
const HIST: [char; 30] = [
    'A', '\u{30A}', 'b', '\u{316}', '\u{301}', '\u{AC01}', '\u{1100}', '\u{1161}', '\u{11A8}', '\u{1E69}', '\u{3B1}', '\u{345}',
    '\u{313}', ' ', '\u{FB01}', '\u{F900}', 'o', '\u{31B}', '\u{323}', '\u{301}', '\u{301}', '\u{9C7}', '\u{9BE}', '\u{34F}',
    '\u{344}', '\u{10FFFF}', 'q', '\u{334}', '\u{1D15F}', 'c',
];
#[derive(Clone)]
struct Ages {
    i: usize,
    n: usize,
    tail: [u32; 4],
}
impl Iterator for Ages {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        let i = self.i;
        if i < self.n {
            self.i += 1;
            return Some(HIST[i % 30]);
        }
        if i < self.n + 4 {
            self.i += 1;
            return Some(chr(self.tail[i - self.n]));
        }
        None
    }
}
macro_rules! ages {
    ($name:ident, $m:ident, $n:expr, $x:expr, $y:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let tail = [0x41, $x, $y, 0x7A];
            let period = collect(HIST.iter().copied().$m());
            let mut it = Ages { i: 0, n: 30 * $n, tail }.$m();
            let mut k = 0;
            while k < $n {
                let mut j = 0;
                while j < period.n {
                    check(it.next() == Some(chr(period.v[j])), 1);
                    j += 1;
                }
                check(heap() <= 2048, 2);
                k += 1;
            }
            let w = collect(tail.iter().map(|&c| chr(c)).$m());
            drive(it, w.s(), 3);
            reach(1);
        }
    };
}
ages!(h_c18_ages_nfd, nfd, 2200, any(0), any(1));
ages!(h_c18_ages_nfkd, nfkd, 2200, any(0), any(1));
ages!(h_c18_ages_nfc, nfc, 2200, any(0), mark(1));
ages!(h_c18_ages_nfkc, nfkc, 2200, any(0), mark(1));
ages!(h_c12_ages, cjk_compat_variants, 2200, any(0), any(1));
ages!(h_c06_ages, stream_safe, 2200, any(0), any(1));
macro_rules! agesq {
    ($name:ident, $q:ident, $n:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            // normalized text of many characters
            let tail = [0x41, any(0), any(1), 0x7A];
            let x = $q(Plain { i: 0, n: $n }.chain(tail.iter().map(|&c| chr(c))));
            let w = $q(tail.iter().map(|&c| chr(c)));
            check(x == w, 1);
            reach(1);
        }
    };
}
/// letters with marks that are in all forms
#[derive(Clone)]
struct Plain {
    i: usize,
    n: usize,
}
impl Iterator for Plain {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        const P: [char; 10] = ['q', '\u{334}', '\u{316}', '\u{33D}', '\u{33D}', '\u{4E00}', ' ', '\u{10480}', '\u{34F}', 'z'];
        let i = self.i;
        if i < self.n {
            self.i += 1;
            return Some(P[i % 10]);
        }
        None
    }
}
agesq!(h_c19_ages_nfd, is_nfd_quick, 66000);
agesq!(h_c19_ages_nfkd, is_nfkd_quick, 66000);
agesq!(h_c19_ages_nfc, is_nfc_quick, 66000);
agesq!(h_c19_ages_nfkc, is_nfkc_quick, 66000);
agesq!(h_c19_ages_ss_nfc, is_nfc_stream_safe_quick, 66000);
agesq!(h_c19_ages_ss_nfd, is_nfd_stream_safe_quick, 66000);
macro_rules! agesv {
    ($name:ident, $m:ident, $n:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let tail = [0x41, any(0), any(1), 0x7A];
            let mut it = Ages { i: 0, n: $n, tail }.$m();
            while let Some(c) = it.next() {
                let c = c as u32;
                check(c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF), 1);
            }
            reach(1);
        }
    };
}
agesv!(h_c15_ages_nfd, nfd, 66000);
agesv!(h_c15_ages_nfkd, nfkd, 66000);
agesv!(h_c15_ages_nfc, nfc, 66000);
agesv!(h_c15_ages_ss, stream_safe, 66000);
agesv!(h_c15_ages_cjk, cjk_compat_variants, 66000);
agesq!(h_c15_ages_q_nfd, is_nfd_quick, 66000);
agesq!(h_c15_ages_q_ss, is_nfc_stream_safe_quick, 66000);
huge!(h_c15_huge_nfd, nfd, 66000);
huge!(h_c15_huge_nfc, nfc, 66000);
#[no_mangle]
pub extern "C" fn h_c15_huge_ss() {
    let m = among(0, &[[0x0302, 0x0302], [0x033D, 0x033E]]);
    let t = Huge { i: 0, n: 66000, m };
    check(is_nfd_stream_safe_quick(t.clone()) == IsNormalized::No, 1);
    check(is_nfc_quick(t.clone()) != IsNormalized::No, 2);
    check(t.stream_safe().count() > 66000, 3);
    reach(1);
}
/// strings of 66000 characters, then symbolic ones
macro_rules! agesp {
    ($name:ident, $p:ident, $n:expr, $x:expr, $y:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut b = [0u8; 3 * $n];
            let mut n = 0;
            for c in (Plain { i: 0, n: $n }) {
                let mut e = [0u8; 4];
                for &x in c.encode_utf8(&mut e).as_bytes() {
                    b[n] = x;
                    n += 1;
                }
            }
            let u = Utf8::of(&[0x41, $x, $y, 0x7A]);
            let mut i = 0;
            while i < u.n {
                b[n + i] = u.b[i];
                i += 1;
            }
            let x = $p(unsafe { core::str::from_utf8_unchecked(&b[..n + u.n]) });
            check(x == $p(u.str()), 1);
            reach(1);
        }
    };
}
agesp!(h_c18_agesp_nfd, is_nfd, 66000, any(0), any(1));
agesp!(h_c18_agesp_nfc, is_nfc, 66000, any(0), mark(1));
agesp!(h_c18_agesp_nfkd, is_nfkd, 66000, any(0), any(1));
agesp!(h_c18_agesp_nfkc, is_nfkc, 66000, any(0), mark(1));
agesp!(h_c07_agesp_nfd, is_nfd_stream_safe, 66000, any(0), any(1));
agesp!(h_c07_agesp_nfc, is_nfc_stream_safe, 66000, any(0), mark(1));
/// size_hint, clone and Display after 66000 characters
struct Sink {
    t: Txt,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            self.t.push(c as u32);
        }
        Ok(())
    }
}
macro_rules! agesi {
    ($name:ident, $m:ident, $n:expr, $x:expr, $y:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let tail = [0x41, $x, $y, 0x7A];
            let period = collect(HIST.iter().copied().$m());
            let mut it = Ages { i: 0, n: 30 * $n, tail }.$m();
            let mut k = 0;
            while k < $n * period.n {
                it.next();
                k += 1;
            }
            let w = collect(tail.iter().map(|&c| chr(c)).$m());
            k = 0;
            loop {
                let (lo, hi) = it.size_hint();
                check(lo <= w.n - k, 1);
                check(hi.is_none() || hi.unwrap() >= w.n - k, 2);
                drive(it.clone(), &w.v[k..w.n], 3);
                let mut s = Sink { t: Txt::new() };
                check(write!(s, "{}", it).is_ok(), 6);
                check_same(s.t.s(), &w.v[k..w.n], 7);
                match it.next() {
                    Some(x) => check(k < w.n && x as u32 == w.v[k], 9),
                    None => break,
                }
                k += 1;
            }
            check(k == w.n, 10);
            reach(1);
        }
    };
}
agesi!(h_c14_ages_nfd, nfd, 2200, any(0), any(1));
agesi!(h_c14_ages_nfkd, nfkd, 2200, any(0), mark(1));
agesi!(h_c14_ages_nfc, nfc, 2200, any(0), mark(1));
agesi!(h_c14_ages_cjk, cjk_compat_variants, 2200, any(0), any(1));
ages!(h_c20_ages_nfd, nfd, 2200, any(0), any(1));
ages!(h_c20_ages_nfc, nfc, 2200, any(0), mark(1));
ages!(h_c20_ages_ss, stream_safe, 2200, any(0), any(1));
agesp!(h_c04_ages_nfd, is_nfd, 66000, any(0), any(1));
agesp!(h_c04_ages_nfc, is_nfc, 66000, among(0, &LAT), mark(1));
