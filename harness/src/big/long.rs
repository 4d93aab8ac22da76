//! Long texts: runs of hundreds of marks and long histories with a few symbolic positions
use super::common::*;
use core::cell::Cell;
use unicode_normalization::*;

const LAT: [[u32; 2]; 2] = [[0x41, 0x5A], [0x61, 0x7A]];
const ONE: [[u32; 2]; 1] = [[0x75, 0x75]];
const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];

/// a letter, n1 marks, a symbolic mark, n2 marks, a letter, a symbolic mark, a character
#[inline(always)]
fn marks(kind: u32, n1: usize, n2: usize) -> Txt {
    let mut t = Txt::of(&[among(0, &ONE)]);
    run(&mut t, kind, n1);
    t.push(mark(1));
    run(&mut t, kind, n2);
    t.push(among(2, &LAT));
    t.push(mark(3));
    t.push(among(4, &[[0x40, 0x24F]]));
    t
}
/// characters that leave every kind of trace in the iterators
#[inline(always)]
fn history(n: usize) -> Txt {
    const H: [u32; 30] = [
        0x41, 0x30A, 0x62, 0x316, 0x301, 0xAC01, 0x1100, 0x1161, 0x11A8, 0x1E69, 0x3B1, 0x345, 0x313, 0x20, 0xFB01, 0xF900, 0x6F,
        0x31B, 0x323, 0x301, 0x301, 0x9C7, 0x9BE, 0x34F, 0x344, 0x10FFFF, 0x71, 0x334, 0x1D15F, 0x63,
    ];
    let mut t = Txt::new();
    let mut i = 0;
    while i < n {
        t.push(H[i % 30]);
        i += 1;
    }
    t
}
#[inline(always)]
fn after(n: usize) -> Txt {
    let mut t = history(n);
    t.push(any(0));
    t.push(any(1));
    t.push(0x7A);
    t
}
/// 30 marks and a symbolic character, over and over, with a starter now and then
#[inline(always)]
fn limit() -> Txt {
    let mut t = Txt::of(&[among(0, &ONE)]);
    run(&mut t, 0, 95);
    t.push(any(1));
    run(&mut t, 0, 31);
    t.push(0x61);
    run(&mut t, 1, 29);
    t.push(any(2));
    run(&mut t, 0, 3);
    t
}

macro_rules! is {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let w = norm($form, $comp, t.s());
            drive(t.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
is!(h_c01_run130, nfd, D, false, marks(1, 60, 64));
is!(h_c01_run300, nfkd, KD, false, marks(0, 280, 15));
is!(h_c01_run600, nfd, D, false, marks(0, 590, 10));
is!(h_c02_run130, nfc, D, true, marks(1, 60, 64));
is!(h_c02_run300, nfkc, KD, true, marks(0, 280, 15));
is!(h_c02_run600, nfc, D, true, marks(0, 590, 10));
is!(h_c01_hist, nfd, D, false, after(90));
is!(h_c01_khist, nfkd, KD, false, after(300));
is!(h_c02_hist, nfc, D, true, after(90));
is!(h_c02_khist, nfkc, KD, true, after(300));

macro_rules! pred {
    ($name:ident, $f:ident, $form:expr, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let ok = same(norm($form, $comp, t.s()).s(), t.s());
            check($f(Utf8::of(t.s()).str()) == ok, 1);
            reach(1 + ok as u32);
        }
    };
}
pred!(h_c04_run130, is_nfd, D, false, marks(0, 60, 64));
pred!(h_c04_crun130, is_nfc, D, true, marks(0, 60, 64));

macro_rules! safe {
    ($name:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let w = stream_safe(t.s());
            drive(t.chars().it().stream_safe(), w.s(), 1);
            check(longest_run(w.s()) <= 30, 9);
            reach(1);
        }
    };
}
safe!(h_c06_run, limit());
safe!(h_c06_hist, after(300));

macro_rules! sspred {
    ($name:ident, $f:ident, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let ok = same(norm(D, $comp, t.s()).s(), t.s());
            let ok = ok & same(stream_safe(t.s()).s(), t.s());
            check($f(Utf8::of(t.s()).str()) == ok, 1);
            reach(1 + ok as u32);
        }
    };
}
/// normalized text of many segments with symbolic characters near the end
#[inline(always)]
fn segments() -> Txt {
    let mut t = Txt::new();
    let mut i = 0;
    while i < 5 {
        t.push(if i % 2 == 0 { 0x71 } else { 0x0915 });
        run(&mut t, 0, 26 + i);
        i += 1;
    }
    t.push(any(0));
    t.push(any(1));
    t
}
sspred!(h_c07_segs_nfd, is_nfd_stream_safe, false, segments());
sspred!(h_c07_segs_nfc, is_nfc_stream_safe, true, segments());

macro_rules! both {
    ($name:ident, $m:ident, $p:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let a = collect(c.it().stream_safe().$m());
            check($p(Utf8::of(a.s()).str()), 1);
            check(longest_run(a.s()) <= 30, 2);
            let b = collect(c.it().$m().stream_safe());
            check($p(Utf8::of(b.s()).str()), 3);
            check(longest_run(b.s()) <= 30, 4);
            reach(1);
        }
    };
}
#[inline(always)]
fn limit1() -> Txt {
    let mut t = Txt::of(&[0x75]);
    run(&mut t, 0, 95);
    t.push(any(1));
    run(&mut t, 1, 31);
    t
}
both!(h_c08_run_nfd, nfd, is_nfd_stream_safe, limit1());
both!(h_c08_run_nfc, nfc, is_nfc_stream_safe, limit1());

/// size_hint, clone and Display at every point of a run that has left the inline buffers
macro_rules! points {
    ($name:ident, $m:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = collect(c.it().$m());
            let mut it = c.it().$m();
            let mut k = 0;
            loop {
                let (lo, hi) = it.size_hint();
                check(lo <= all.n - k, 1);
                check(hi.is_none() || hi.unwrap() >= all.n - k, 2);
                if k % 7 == 3 || k + 5 > all.n {
                    drive(it.clone(), &all.v[k..all.n], 3);
                }
                match it.next() {
                    Some(x) => check(k < all.n && x as u32 == all.v[k], 6),
                    None => break,
                }
                k += 1;
            }
            check(k == all.n, 7);
            reach(1);
        }
    };
}
points!(h_c14_run_nfd, nfd, marks(0, 40, 3));
points!(h_c14_run_nfc, nfc, marks(0, 40, 3));

macro_rules! total {
    ($name:ident, $m:ident, $max:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let c = t.chars();
            let mut n = 0;
            for x in c.it().$m() {
                let x = x as u32;
                check(x < 0xD800 || (x > 0xDFFF && x <= 0x10FFFF), 1);
                n += 1;
            }
            check(n <= t.n * $max, 2);
            reach(1);
        }
    };
}
total!(h_c15_run300_nfkd, nfkd, 18, marks(2, 280, 15));
total!(h_c15_run300_nfkc, nfkc, 18, marks(2, 280, 15));
total!(h_c15_run_ss, stream_safe, 2, limit());

/// reading no further than needed, in and after a long run
struct Src<'a> {
    v: &'a [char],
    i: usize,
    n: &'a Cell<usize>,
}
impl<'a> Iterator for Src<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        if self.i < self.v.len() {
            let c = self.v[self.i];
            self.i += 1;
            self.n.set(self.i);
            Some(c)
        } else {
            self.n.set(self.v.len() + 1);
            None
        }
    }
}
macro_rules! ahead {
    ($name:ident, $m:ident, $n:expr, $slack:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            // a run, then starters that neither decompose nor compose
            let mut t = Txt::of(&[0x78]);
            run(&mut t, 0, $n);
            t.push(mark(1));
            let mut i = 0;
            while i < 40 {
                t.push(0x78 - (i % 3));
                i += 1;
            }
            let len = norm(KD, false, &t.v[..$n + 2]).n;
            let c = t.chars();
            let n = Cell::new(0);
            let mut it = Src { v: c.s(), i: 0, n: &n }.$m();
            let mut j = 0;
            while let Some(_) = it.next() {
                // the run is read up to the starter after it; then one character at a time
                if j < len {
                    check(n.get() <= $n + 3 + $slack, 1);
                } else {
                    check(n.get() <= $n + 3 + $slack + (j - len), 2);
                }
                j += 1;
            }
            check(j == len + 40, 3);
            reach(1);
        }
    };
}
ahead!(h_c16_run_nfd, nfd, 90, 0);
ahead!(h_c16_run_nfkd, nfkd, 300, 0);
ahead!(h_c16_run_nfc, nfc, 90, 1);

macro_rules! seg {
    ($name:ident, $m:ident, $prop:expr, $a:expr, $b:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a: Txt = $a;
            let b: Txt = $b;
            assume(r_ccc(b.v[0]) == 0);
            assume(r_prop($prop, b.v[0]) == 0);
            let mut t = a;
            t.add(b.s());
            let mut w = collect(a.chars().it().$m());
            let v = collect(b.chars().it().$m());
            w.add(v.s());
            drive(t.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
#[inline(always)]
fn runs(n: usize) -> Txt {
    let mut t = Txt::of(&[0x75]);
    run(&mut t, 1, n);
    t.push(mark(0));
    t
}
seg!(h_c18_run_nfd, nfd, 4, runs(130), Txt::of(&[any(8), any(9)]));
seg!(h_c18_run_nfc, nfc, 2, runs(130), Txt::of(&[any(8), mark(9)]));
seg!(h_c18_hist_nfc, nfc, 2, history(90), Txt::of(&[any(8), mark(9)]));
seg!(h_c18_hist_nfkd, nfkd, 5, history(90), Txt::of(&[any(8), any(9)]));


/// n marks of descending classes, over and over
#[inline(always)]
fn falling(t: &mut Txt, n: usize) {
    const F: [u32; 8] = [0x345, 0x35C, 0x315, 0x303, 0x302, 0x316, 0x321, 0x334];
    let mut i = 0;
    while i < n {
        t.push(F[i % 8]);
        i += 1;
    }
}
/// marks of the classes 1, 202, 216, 220, 230, 232 to 234 and 240
#[inline(always)]
fn few(i: u32) -> u32 {
    among(i, &[[0x300, 0x304], [0x315, 0x317], [0x31B, 0x31B], [0x321, 0x323], [0x334, 0x334], [0x344, 0x345], [0x35C, 0x35D]])
}
/// every length of run from 2 on, with one symbolic mark inside and one at the end
macro_rules! lens {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $max:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let (a, b) = (few(0), few(1));
            let mut n = 0;
            while n <= $max {
                let mut t = Txt::of(&[0x75]);
                falling(&mut t, n / 3);
                t.push(a);
                falling(&mut t, n - n / 3);
                t.push(b);
                t.push(0x65);
                t.push(b);
                t.push(0x7A);
                let w = norm($form, $comp, t.s());
                drive(t.chars().it().$m(), w.s(), 1);
                n += 1;
            }
            reach(1);
        }
    };
}
lens!(h_c01_lens, nfd, D, false, 34);
lens!(h_c01_klens, nfkd, KD, false, 66);
lens!(h_c02_lens, nfc, D, true, 34);
lens!(h_c02_klens, nfkc, KD, true, 50);
/// two orders of the same marks
macro_rules! orders {
    ($name:ident, $m:ident, $max:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let (a, b) = (few(0), few(1));
            assume(r_ccc(a) != r_ccc(b));
            // marks that do not move relative to one another in the decomposition
            assume(r_len(KD, a) == 0 && r_len(KD, b) == 0);
            let mut n = 0;
            while n <= $max {
                let mut t = Txt::of(&[0x75]);
                falling(&mut t, n);
                let mut u = t;
                t.push(a);
                t.push(b);
                u.push(b);
                u.push(a);
                let w = collect(u.chars().it().$m());
                drive(t.chars().it().$m(), w.s(), 1);
                n += 1;
            }
            reach(1);
        }
    };
}
orders!(h_c03_orders_nfd, nfd, 34);
orders!(h_c03_orders_nfc, nfc, 34);
pred!(h_c04_hist_nfc, is_nfc, D, true, after(90));
pred!(h_c04_hist_nfkc, is_nfkc, KD, true, normal(3));
pred!(h_c04_hist_nfd, is_nfd, D, false, normal(4));
pred!(h_c04_hist2_nfc, is_nfc, D, true, normal(9));
pred!(h_c04_histm_nfc, is_nfc, D, true, normal_m(9));
pred!(h_c04_histm_nfkc, is_nfkc, KD, true, normal_m(4));
/// the same, then a letter and a mark
#[inline(always)]
fn normal_m(n: usize) -> Txt {
    let mut t = normal_of(n);
    t.push(among(0, &LAT));
    t.push(mark(1));
    t.push(0x7A);
    t
}
/// text in all four forms, then symbolic characters
#[inline(always)]
fn normal(n: usize) -> Txt {
    let mut t = normal_of(n);
    t.push(among(0, &ALL));
    t.push(any(1));
    t.push(0x7A);
    t
}
#[inline(always)]
fn normal_of(n: usize) -> Txt {
    const H: [u32; 20] = [
        0x41, 0x316, 0x62, 0x334, 0x333, 0x20, 0x4E00, 0x3B1, 0x33D, 0x33D, 0x10480, 0x6F, 0x34F, 0x323, 0x10FFFF, 0x71, 0x334, 0x31B, 0x63, 0x30,
    ];
    let mut t = Txt::new();
    let mut i = 0;
    while i < n {
        for &c in &H {
            t.push(c);
        }
        i += 1;
    }
    t
}
macro_rules! noloss {
    ($name:ident, $q:ident, $p:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let u = Utf8::of(t.s());
            let a = $p(u.str());
            match $q(t.chars().it()) {
                IsNormalized::Yes => check(a, 1),
                IsNormalized::No => check(!a, 2),
                IsNormalized::Maybe => (),
            }
            reach(1);
        }
    };
}
noloss!(h_c15_preds_run_nfd, is_nfd_quick, is_nfd, marks(0, 280, 15));
noloss!(h_c15_preds_run_nfc, is_nfc_quick, is_nfc, marks(0, 280, 15));
noloss!(h_c15_preds_run_nfkd, is_nfkd_quick, is_nfkd, marks(0, 280, 15));
noloss!(h_c15_preds_run_nfkc, is_nfkc_quick, is_nfkc, marks(0, 280, 15));
noloss!(h_c15_preds_run_ss, is_nfd_stream_safe_quick, is_nfd_stream_safe, limit());

// ------------------------------------------------------------------ long histories for the rest
macro_rules! quick {
    ($name:ident, $f:ident, $form:expr, $comp:expr, $ss:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let mut ok = same(norm($form, $comp, t.s()).s(), t.s());
            if $ss {
                ok = ok & (longest_run(t.s()) <= 30);
            }
            match $f(t.chars().it()) {
                IsNormalized::Yes => check(ok, 1),
                IsNormalized::No => check(!ok, 2),
                IsNormalized::Maybe => check($comp, 3),
            }
            reach(1 + ok as u32);
        }
    };
}
quick!(h_c05_run_nfd, is_nfd_quick, D, false, false, marks(0, 60, 64));
quick!(h_c05_run_nfkc, is_nfkc_quick, KD, true, false, marks(0, 60, 64));
quick!(h_c05_hist_nfd, is_nfd_quick, D, false, false, normal(5));
quick!(h_c05_hist_nfc, is_nfc_quick, D, true, false, normal(2));
quick!(h_c05_hist_nfkd, is_nfkd_quick, KD, false, false, normal(3));
quick!(h_c05_hist_nfkc, is_nfkc_quick, KD, true, false, normal(4));
quick!(h_c05_segs_nfd, is_nfd_stream_safe_quick, D, false, true, segments());
quick!(h_c05_segs_nfc, is_nfc_stream_safe_quick, D, true, true, segments());
both!(h_c08_hist_nfd, nfd, is_nfd_stream_safe, hist_m());
both!(h_c08_hist_nfc, nfc, is_nfc_stream_safe, hist_m());
#[inline(always)]
fn hist_m() -> Txt {
    let mut t = history(30);
    t.push(among(0, &ALL));
    run(&mut t, 0, 29);
    t.push(mark(1));
    run(&mut t, 1, 2);
    t
}
points!(h_c14_hist_nfd, nfd, hist2());
points!(h_c14_hist_nfkd, nfkd, hist2());
points!(h_c14_hist_nfc, nfc, hist2());
points!(h_c14_hist_cjk, cjk_compat_variants, after(30));
#[inline(always)]
fn hist2() -> Txt {
    let mut t = history(30);
    t.push(among(0, &ALL));
    t.push(mark(1));
    t
}
total!(h_c15_hist_nfd, nfd, 4, after(90));
total!(h_c15_hist_nfkd, nfkd, 18, after(90));
total!(h_c15_hist_nfc, nfc, 4, after(90));
total!(h_c15_hist_nfkc, nfkc, 18, hist2());
total!(h_c15_hist_cjk, cjk_compat_variants, 2, after(300));
total!(h_c15_hist_ss, stream_safe, 2, after(300));
total!(h_c15_run300_nfd, nfd, 4, marks(2, 280, 15));
total!(h_c15_run300_nfc, nfc, 4, marks(2, 280, 15));
/// replacements are one for one along any text
#[no_mangle]
pub extern "C" fn h_c12_hist() {
    let t = after(300);
    let mut w = Txt::new();
    for &c in t.s() {
        let l = r_len(CJK, c);
        if l == 0 {
            w.push(c);
        } else {
            let mut i = 0;
            while i < l {
                w.push(r_at(CJK, c, i));
                i += 1;
            }
        }
    }
    drive(t.chars().it().cjk_compat_variants(), w.s(), 1);
    reach(1);
}
struct Blind<'a> {
    v: &'a [char],
    i: usize,
}
impl<'a> Iterator for Blind<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        let c = self.v.get(self.i).copied();
        if c.is_some() {
            self.i += 1;
        }
        c
    }
}
macro_rules! entry {
    ($name:ident, $m:ident, $new:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let c = t.chars();
            let w = collect(c.it().$m());
            let u = Utf8::of(t.s());
            drive(u.str().$m(), w.s(), 1);
            drive($new(u.str().chars()), w.s(), 4);
            drive(Blind { v: c.s(), i: 0 }.$m(), w.s(), 7);
            reach(1);
        }
    };
}
entry!(h_c17_hist_nfd, nfd, Decompositions::new_canonical, hist2());
entry!(h_c17_hist_nfkd, nfkd, Decompositions::new_compatible, hist2());
entry!(h_c17_hist_nfc, nfc, Recompositions::new_canonical, hist2());
entry!(h_c17_hist_nfkc, nfkc, Recompositions::new_compatible, hist2());
entry!(h_c17_hist_cjk, cjk_compat_variants, Replacements::new_cjk_compat_variants, after(40));
entry!(h_c17_run_nfd, nfd, Decompositions::new_canonical, marks(0, 36, 8));
entry!(h_c17_run_nfc, nfc, Recompositions::new_canonical, marks(0, 36, 8));
entry!(h_c17_run_ss, stream_safe, StreamSafe::new, limit());
#[inline(always)]
fn starters(form: u32, comp: bool, t: &Txt) -> [usize; 128] {
    let mut a = [0; 128];
    let mut m = 0;
    while m <= t.n {
        let w = norm(form, comp, &t.v[..m]);
        let mut k = w.n;
        while k > 0 && r_ccc(w.v[k - 1]) != 0 {
            k -= 1;
        }
        a[m] = k;
        m += 1;
    }
    a
}
macro_rules! ahead_any {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let last = starters($form, $comp, &t);
            let c = t.chars();
            let n = Cell::new(0);
            let mut it = Src { v: c.s(), i: 0, n: &n }.$m();
            let mut j = 0;
            while let Some(_) = it.next() {
                let read = n.get();
                check(read > 0, 1);
                check(last[read - 1] <= j + $comp as usize, 2);
                j += 1;
            }
            reach(1);
        }
    };
}
ahead_any!(h_c16_hist_nfd, nfd, D, false, hist2());
ahead_any!(h_c16_hist_nfkd, nfkd, KD, false, hist2());
ahead_any!(h_c16_hist_nfc, nfc, D, true, hist2());
ahead_any!(h_c16_hist_nfkc, nfkc, KD, true, hist2());

// ------------------------------------------------------------------ periodic texts
macro_rules! relate {
    ($name:ident, $t:expr, $first:ident $second:ident $want:ident) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let a = collect(c.it().$first());
            let w = collect(c.it().$want());
            drive(a.chars().it().$second(), w.s(), 1);
            reach(1);
        }
    };
}
relate!(h_c03_per_idem_nfc, times(10, &[any(0), mark(1)]), nfc nfc nfc);
relate!(h_c03_per_idem_nfd, times(10, &anys::<2>(0)), nfd nfd nfd);
relate!(h_c03_per_c_of_d, times(8, &[any(0), mark(1)]), nfd nfc nfc);
relate!(h_c03_per_d_of_c, times(8, &[any(0), mark(1)]), nfc nfd nfd);
relate!(h_c03_per_kc_of_c, times(30, &anys::<1>(0)), nfc nfkc nfkc);
relate!(h_c03_per_kd_of_kc, times(30, &anys::<1>(0)), nfkc nfkd nfkd);
relate!(h_c03_per_kc_of_kd, times(30, &anys::<1>(0)), nfkd nfkc nfkc);
pred!(h_c04_per_nfd, is_nfd, D, false, times(12, &anys::<2>(0)));
pred!(h_c04_per_nfkd, is_nfkd, KD, false, times(12, &anys::<2>(0)));
pred!(h_c04_per_nfc, is_nfc, D, true, times(12, &[any(0), mark(1)]));
pred!(h_c04_per_nfkc, is_nfkc, KD, true, times(12, &[any(0), mark(1)]));
pred!(h_c04_one_nfc, is_nfc, D, true, times(100, &anys::<1>(0)));
pred!(h_c04_one_nfkc, is_nfkc, KD, true, times(35, &anys::<1>(0)));
pred!(h_c04_one_nfd, is_nfd, D, false, times(150, &anys::<1>(0)));
quick!(h_c05_per_nfd, is_nfd_quick, D, false, false, times(20, &anys::<2>(0)));
quick!(h_c05_per_nfc, is_nfc_quick, D, true, false, times(12, &[any(0), mark(1)]));
quick!(h_c05_per_nfkd, is_nfkd_quick, KD, false, false, times(12, &anys::<2>(0)));
quick!(h_c05_per_nfkc, is_nfkc_quick, KD, true, false, times(12, &[any(0), mark(1)]));
quick!(h_c05_per_ss_nfd, is_nfd_stream_safe_quick, D, false, true, times(17, &anys::<2>(0)));
quick!(h_c05_per_ss_nfc, is_nfc_stream_safe_quick, D, true, true, times(32, &anys::<1>(0)));
both!(h_c08_per_nfd, nfd, is_nfd_stream_safe, times(64, &anys::<1>(0)));
both!(h_c08_per_nfc, nfc, is_nfc_stream_safe, times(64, &anys::<1>(0)));
both!(h_c08_per2_nfd, nfd, is_nfd_stream_safe, times(16, &anys::<2>(0)));
both!(h_c08_per2_nfc, nfc, is_nfc_stream_safe, times(16, &[among(0, &LAT), mark(1), 0x301]));
points!(h_c14_per_nfd, nfd, times(6, &[any(0), mark(1)]));
points!(h_c14_per_nfc, nfc, times(6, &[any(0), mark(1)]));
points!(h_c14_per_nfkc, nfkc, times(8, &[any(0)]));
total!(h_c15_per_nfkc, nfkc, 18, times(10, &[any(0), mark(1)]));
total!(h_c15_per_nfc, nfc, 4, times(10, &[any(0), mark(1)]));
total!(h_c15_per_nfd, nfd, 4, times(10, &anys::<2>(0)));
ahead_any!(h_c16_per_nfd, nfd, D, false, times(5, &anys::<2>(0)));
ahead_any!(h_c16_per_nfkd, nfkd, KD, false, times(6, &anys::<1>(0)));
ahead_any!(h_c16_per_nfc, nfc, D, true, times(5, &[any(0), mark(1)]));
ahead_any!(h_c16_per_nfkc, nfkc, KD, true, times(6, &anys::<1>(0)));
entry!(h_c17_per_nfd, nfd, Decompositions::new_canonical, times(6, &[any(0), mark(1)]));
entry!(h_c17_per_nfkc, nfkc, Recompositions::new_compatible, times(6, &[any(0)]));
entry!(h_c17_per_ss, stream_safe, StreamSafe::new, times(33, &anys::<1>(0)));
seg!(h_c18_per_nfd, nfd, 4, times(30, &anys::<1>(0)), Txt::of(&[any(8), any(9)]));
seg!(h_c18_per_nfc, nfc, 2, times(30, &anys::<1>(0)), Txt::of(&[any(8)]));
seg!(h_c18_perm_nfc, nfc, 2, times(30, &anys::<1>(0)), Txt::of(&[any(8), mark(9)]));
seg!(h_c18_per_nfkd, nfkd, 5, times(30, &anys::<1>(0)), Txt::of(&[any(8), any(9)]));
seg!(h_c18_per_nfkc, nfkc, 3, times(30, &anys::<1>(0)), Txt::of(&[any(8)]));

/// every length of run, with any mark at the end of the text
macro_rules! tails {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $max:expr, $st:expr, $kind:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a = mark(0);
            let mut n = 0;
            while n <= $max {
                let mut t = Txt::of(&$st);
                if $kind == 9 {
                    falling(&mut t, n);
                } else {
                    run(&mut t, $kind, n);
                }
                t.push(a);
                let w = norm($form, $comp, t.s());
                drive(t.chars().it().$m(), w.s(), 1);
                n += 1;
            }
            reach(1);
        }
    };
}
tails!(h_c01_tails, nfd, D, false, 34, [0x75], 9);
tails!(h_c01_ktails, nfkd, KD, false, 20, [0x62, 0xFB01], 2);
tails!(h_c02_tails, nfc, D, true, 34, [0x71], 9);
tails!(h_c02_tails0, nfc, D, true, 34, [0x61], 0);
tails!(h_c02_ktails, nfkc, KD, true, 20, [0x62, 0xFB01], 2);
/// every length of run at the start of the text, with any mark after it and then letter and mark
macro_rules! heads {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $max:expr, $kind:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a = mark(0);
            let mut n = 0;
            while n <= $max {
                let mut t = Txt::new();
                run(&mut t, $kind, n);
                t.push(a);
                t.push(0x75);
                t.push(a);
                let w = norm($form, $comp, t.s());
                drive(t.chars().it().$m(), w.s(), 1);
                n += 1;
            }
            reach(1);
        }
    };
}
heads!(h_c01_heads, nfd, D, false, 34, 2);
heads!(h_c01_kheads, nfkd, KD, false, 20, 0);
heads!(h_c02_heads, nfc, D, true, 34, 2);
heads!(h_c02_kheads, nfkc, KD, true, 20, 0);
/// predicates: every length of run, ordered, with any mark at the end of the text
macro_rules! ptails {
    ($name:ident, $p:ident, $form:expr, $comp:expr, $max:expr, $st:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a = mark(0);
            let mut n = 0;
            while n <= $max {
                let mut t = Txt::of(&$st);
                run(&mut t, 0, n);
                t.push(a);
                let ok = same(norm($form, $comp, t.s()).s(), t.s());
                check($p(Utf8::of(t.s()).str()) == ok, 1);
                n += 1;
            }
            reach(1);
        }
    };
}
ptails!(h_c04_tails_nfd, is_nfd, D, false, 20, [0x75]);
ptails!(h_c04_tails_nfc, is_nfc, D, true, 20, [0x78]);
ptails!(h_c04_tails_nfkd, is_nfkd, KD, false, 12, [0x75]);
ptails!(h_c04_tails_nfkc, is_nfkc, KD, true, 12, [0x78]);
