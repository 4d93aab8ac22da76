//! C16, C17, C18: streaming, entry points, segments
use super::common::*;
use core::cell::Cell;
use unicode_normalization::*;

const LAT: [[u32; 2]; 2] = [[0x41, 0x5A], [0x61, 0x7A]];
const ONE: [[u32; 2]; 1] = [[0x75, 0x75]];
const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];

/// counts what has been read from it (the end counts once as one more)
struct Src<'a> {
    v: &'a [char],
    i: usize,
    n: &'a Cell<usize>,
}
impl<'a> Iterator for Src<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        if self.i < self.v.len() {
            let c = self.v[self.i];
            self.i += 1;
            self.n.set(self.i);
            Some(c)
        } else {
            self.n.set(self.v.len() + 1);
            None
        }
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.v.len() - self.i, Some(self.v.len() - self.i))
    }
}
/// for each prefix: one more than the position of the last starter in its normalization form
#[inline(always)]
fn starters(form: u32, comp: bool, t: &Txt) -> [usize; CAP + 1] {
    let mut a = [0; CAP + 1];
    let mut m = 0;
    while m <= t.n {
        let w = norm(form, comp, &t.v[..m]);
        let mut k = w.n;
        while k > 0 && r_ccc(w.v[k - 1]) != 0 {
            k -= 1;
        }
        a[m] = k;
        m += 1;
    }
    a
}
macro_rules! ahead {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let last = starters($form, $comp, &t);
            let c = t.chars();
            let n = Cell::new(0);
            let mut it = Src { v: c.s(), i: 0, n: &n }.$m();
            let mut j = 0;
            while let Some(_) = it.next() {
                let read = n.get();
                check(read > 0, 1);
                // without the last character read, no starter was known after (NFC, NFKC),
                // or at or after (NFD, NFKD), the position yielded
                if $comp {
                    check(last[read - 1] <= j + 1, 2);
                } else {
                    check(last[read - 1] <= j, 3);
                }
                j += 1;
            }
            reach(1);
        }
    };
}
#[inline(always)]
fn any_n<const N: usize>() -> Txt {
    Txt::of(&anys::<N>(0))
}
#[inline(always)]
fn segs() -> Txt {
    Txt::of(&[among(0, &LAT), mark(1), among(2, &LAT), mark(3), among(4, &ONE)])
}
#[inline(always)]
fn hangul() -> Txt {
    const J: [[u32; 2]; 4] = [[0x1100, 0x1101], [0x1161, 0x1162], [0x11A7, 0x11A8], [0xAC00, 0xAC01]];
    Txt::of(&[among(0, &J), among(1, &J), among(2, &J), among(3, &J)])
}
#[inline(always)]
fn long() -> Txt {
    let mut t = Txt::of(&[among(0, &ONE)]);
    run(&mut t, 2, 6);
    t.push(any(1));
    run(&mut t, 1, 3);
    t.push(any(2));
    t.push(among(3, &ONE));
    t
}
ahead!(h_c16_nfd2, nfd, D, false, any_n::<2>());
ahead!(h_c16_nfd3, nfd, D, false, any_n::<3>());
ahead!(h_c16_nfkd2, nfkd, KD, false, any_n::<2>());
ahead!(h_c16_nfkd3, nfkd, KD, false, any_n::<3>());
ahead!(h_c16_nfc2, nfc, D, true, any_n::<2>());
ahead!(h_c16_nfc3, nfc, D, true, any_n::<3>());
ahead!(h_c16_nfkc2, nfkc, KD, true, any_n::<2>());
ahead!(h_c16_nfc_segs, nfc, D, true, segs());
ahead!(h_c16_nfd_segs, nfd, D, false, segs());
ahead!(h_c16_nfc_hangul, nfc, D, true, hangul());
ahead!(h_c16_nfd_long, nfd, D, false, long());
ahead!(h_c16_nfc_long, nfc, D, true, long());
/// adaptors that need no look-ahead at all
macro_rules! prompt {
    ($name:ident, $m:ident, $f:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let mut len = [0usize; CAP + 1];
            let mut m = 0;
            while m <= t.n {
                len[m] = $f(&t.v[..m]);
                m += 1;
            }
            let c = t.chars();
            let n = Cell::new(0);
            let mut it = Src { v: c.s(), i: 0, n: &n }.$m();
            let mut j = 0;
            while let Some(_) = it.next() {
                let read = n.get();
                check(read > 0, 1);
                check(len[read - 1] <= j, 2);
                j += 1;
            }
            reach(1);
        }
    };
}
#[inline(always)]
fn ss_len(t: &[u32]) -> usize {
    stream_safe(t).n
}
#[inline(always)]
fn cjk_len(t: &[u32]) -> usize {
    let mut n = 0;
    for &c in t {
        let l = r_len(CJK, c) as usize;
        n += if l == 0 { 1 } else { l };
    }
    n
}
#[inline(always)]
fn limit() -> Txt {
    let mut t = Txt::of(&[among(0, &ONE)]);
    run(&mut t, 2, 29);
    t.push(any(1));
    t.push(any(2));
    t
}
prompt!(h_c16_ss2, stream_safe, ss_len, any_n::<2>());
prompt!(h_c16_ss_l, stream_safe, ss_len, limit());
prompt!(h_c16_cjk3, cjk_compat_variants, cjk_len, any_n::<3>());

// ------------------------------------------------------------------ C17
/// knows nothing about its length
struct Blind<'a> {
    v: &'a [char],
    i: usize,
}
impl<'a> Iterator for Blind<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        let c = self.v.get(self.i).copied();
        if c.is_some() {
            self.i += 1;
        }
        c
    }
}
macro_rules! entry {
    ($one:ident, $txt:ident, $m:ident, $new:expr, $n:expr) => {
        #[no_mangle]
        pub extern "C" fn $one() {
            let t = any_n::<1>();
            let c = t.chars();
            let w = collect(c.it().$m());
            let u = Utf8::of(t.s());
            drive(c.v[0].$m(), w.s(), 1);
            drive(u.str().$m(), w.s(), 4);
            drive(Some(c.v[0]).into_iter().$m(), w.s(), 7);
            drive($new(c.it()), w.s(), 10);
            reach(1);
        }
        #[no_mangle]
        pub extern "C" fn $txt() {
            let t = any_n::<$n>();
            let c = t.chars();
            let w = collect(c.it().$m());
            let u = Utf8::of(t.s());
            drive(u.str().$m(), w.s(), 1);
            drive(u.str().chars().$m(), w.s(), 4);
            drive(Blind { v: c.s(), i: 0 }.$m(), w.s(), 7);
            drive($new(u.str().chars()), w.s(), 10);
            drive($new(Blind { v: c.s(), i: 0 }), w.s(), 13);
            reach(1);
        }
    };
}
entry!(h_c17_nfd1, h_c17_nfd2, nfd, Decompositions::new_canonical, 2);
entry!(h_c17_nfkd1, h_c17_nfkd2, nfkd, Decompositions::new_compatible, 2);
entry!(h_c17_nfc1, h_c17_nfc2, nfc, Recompositions::new_canonical, 2);
entry!(h_c17_nfkc1, h_c17_nfkc2, nfkc, Recompositions::new_compatible, 2);
entry!(h_c17_cjk1, h_c17_cjk2, cjk_compat_variants, Replacements::new_cjk_compat_variants, 2);
entry!(h_c17_ss1, h_c17_ss2, stream_safe, StreamSafe::new, 2);

macro_rules! entry_long {
    ($name:ident, $m:ident, $new:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let c = t.chars();
            let w = collect(c.it().$m());
            let u = Utf8::of(t.s());
            drive(u.str().$m(), w.s(), 1);
            drive($new(u.str().chars()), w.s(), 4);
            drive(Blind { v: c.s(), i: 0 }.$m(), w.s(), 7);
            reach(1);
        }
    };
}
entry_long!(h_c17_nfd_l, nfd, Decompositions::new_canonical, long());
entry_long!(h_c17_nfc_l, nfc, Recompositions::new_canonical, long());
entry_long!(h_c17_ss_l, stream_safe, StreamSafe::new, limit());

// ------------------------------------------------------------------ C18
/// a, then b starting with a character before which normalization has a boundary
macro_rules! seg {
    ($name:ident, $m:ident, $prop:expr, $a:expr, $b:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a: Txt = $a;
            let b: Txt = $b;
            assume(r_ccc(b.v[0]) == 0);
            assume(r_prop($prop, b.v[0]) == 0);
            let mut t = a;
            t.add(b.s());
            let mut w = collect(a.chars().it().$m());
            let v = collect(b.chars().it().$m());
            w.add(v.s());
            drive(t.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
#[inline(always)]
fn b2() -> Txt {
    Txt::of(&[any(8), any(9)])
}
#[inline(always)]
fn b1m() -> Txt {
    Txt::of(&[any(8), mark(9)])
}
#[inline(always)]
fn a_lm() -> Txt {
    Txt::of(&[among(0, &LAT), mark(1)])
}
#[inline(always)]
fn a_lmm() -> Txt {
    Txt::of(&[among(0, &ONE), mark(1), mark(2)])
}
#[inline(always)]
fn a_long() -> Txt {
    let mut t = Txt::of(&[among(0, &ONE)]);
    run(&mut t, 2, 12);
    t.push(mark(1));
    t
}
#[inline(always)]
fn b1() -> Txt {
    Txt::of(&[any(8)])
}
seg!(h_c18_nfc1, nfc, 2, any_n::<1>(), b1());
seg!(h_c18_nfkc1, nfkc, 3, any_n::<1>(), b1());
seg!(h_c18_nfd, nfd, 4, any_n::<1>(), b2());
seg!(h_c18_nfkd, nfkd, 5, any_n::<1>(), b2());
seg!(h_c18_nfc, nfc, 2, any_n::<1>(), b2());
seg!(h_c18_nfkc, nfkc, 3, any_n::<1>(), b2());
seg!(h_c18_nfd2, nfd, 4, any_n::<2>(), b2());
seg!(h_c18_nfc2, nfc, 2, any_n::<2>(), Txt::of(&[any(8)]));
seg!(h_c18_nfc_m, nfc, 2, a_lm(), b1m());
seg!(h_c18_nfkc_m, nfkc, 3, a_lm(), b1m());
seg!(h_c18_nfc_mm, nfc, 2, a_lmm(), b1m());
seg!(h_c18_nfd_l, nfd, 4, a_long(), b2());
seg!(h_c18_nfc_l, nfc, 2, a_long(), b2());
seg!(h_c18_nfkd_l, nfkd, 5, a_long(), b2());

macro_rules! segp {
    ($name:ident, $p:ident, $prop:expr, $a:expr, $b:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a: Txt = $a;
            let b: Txt = $b;
            assume(r_ccc(b.v[0]) == 0);
            assume(r_prop($prop, b.v[0]) == 0);
            let mut t = a;
            t.add(b.s());
            let x = $p(Utf8::of(a.s()).str());
            let y = $p(Utf8::of(b.s()).str());
            check($p(Utf8::of(t.s()).str()) == (x & y), 1);
            reach(1 + (x & y) as u32);
        }
    };
}
segp!(h_c18_is_nfc1, is_nfc, 2, any_n::<1>(), b1());
segp!(h_c18_is_nfkc1, is_nfkc, 3, any_n::<1>(), b1());
segp!(h_c18_is_nfd, is_nfd, 4, any_n::<1>(), b2());
segp!(h_c18_is_nfkd, is_nfkd, 5, any_n::<1>(), b2());
segp!(h_c18_is_nfc, is_nfc, 2, any_n::<1>(), b2());
segp!(h_c18_is_nfkc, is_nfkc, 3, any_n::<1>(), b2());
segp!(h_c18_is_nfc_m, is_nfc, 2, a_lm(), b1m());
segp!(h_c18_is_nfd_l, is_nfd, 4, a_long(), b2());
