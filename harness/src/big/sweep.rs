//! Every length: a symbolic character behind n concrete marks or n concrete segments, for every n up to
//! a bound, so that nothing that depends on how much came before (or on where the text ends) is missed
use super::common::*;
use core::cell::Cell;
use unicode_normalization::*;

/// shape 0: letter, n equal marks, a; 1: n marks of one class more than half of them different, a,
/// mark, letter; 2: n segments of letter and mark, a; 3: n letters, a, mark
#[inline(always)]
fn shape(k: u32, n: usize, a: u32) -> Txt {
    let mut t = Txt::new();
    let mut i = 0;
    match k {
        0 => {
            t.push(0x78);
            while i < n {
                t.push(0x33D);
                i += 1;
            }
            t.push(a);
        }
        1 => {
            t.push(0x71);
            while i < n {
                t.push(0x33D + i as u32 % 2);
                i += 1;
            }
            t.push(a);
            t.push(0x33D);
            t.push(0x7A);
        }
        2 => {
            while i < n {
                t.push(0x70 + i as u32 % 3);
                if i % 2 == 1 {
                    t.push(0x316);
                }
                t.push(0x33D);
                i += 1;
            }
            t.push(a);
        }
        _ => {
            while i < n {
                t.push(0x70 + i as u32 % 3);
                i += 1;
            }
            t.push(a);
            t.push(0x301);
        }
    }
    t
}
macro_rules! sweep {
    ($name:ident, $f:ident, $k:expr, $max:expr, $a:expr, $($x:tt)*) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a = $a;
            let mut n = 0;
            while n <= $max {
                let t = shape($k, n, a);
                $f!(t, $($x)*);
                n += 1;
            }
            reach(1);
        }
    };
}
macro_rules! conf {
    ($t:ident, $m:ident, $form:expr, $comp:expr) => {
        let w = norm($form, $comp, $t.s());
        drive($t.chars().it().$m(), w.s(), 1);
    };
}
sweep!(h_c01_sweep1, conf, 1, 34, any(0), nfd, D, false);
sweep!(h_c01_sweep2, conf, 2, 50, any(0), nfd, D, false);
sweep!(h_c01_ksweep3, conf, 3, 50, any(0), nfkd, KD, false);
sweep!(h_c02_sweep1, conf, 1, 34, any(0), nfc, D, true);
sweep!(h_c02_sweep2, conf, 2, 50, any(0), nfc, D, true);
sweep!(h_c02_ksweep3, conf, 3, 40, any(0), nfkc, KD, true);
macro_rules! pred {
    ($t:ident, $p:ident, $form:expr, $comp:expr) => {
        let ok = same(norm($form, $comp, $t.s()).s(), $t.s());
        check($p(Utf8::of($t.s()).str()) == ok, 1);
    };
}
sweep!(h_c04_sweep1_nfc, pred, 1, 30, any(0), is_nfc, D, true);
sweep!(h_c04_sweep2_nfd, pred, 2, 50, any(0), is_nfd, D, false);
sweep!(h_c04_sweep2_nfc, pred, 2, 50, any(0), is_nfc, D, true);
sweep!(h_c04_sweep3_nfkd, pred, 3, 40, any(0), is_nfkd, KD, false);
sweep!(h_c04_sweep3_nfkc, pred, 3, 40, any(0), is_nfkc, KD, true);
macro_rules! quick {
    ($t:ident, $f:ident, $form:expr, $comp:expr, $ss:expr) => {
        let mut ok = same(norm($form, $comp, $t.s()).s(), $t.s());
        if $ss {
            ok = ok & (longest_run($t.s()) <= 30);
        }
        match $f($t.chars().it()) {
            IsNormalized::Yes => check(ok, 1),
            IsNormalized::No => check(!ok, 2),
            IsNormalized::Maybe => check($comp, 3),
        }
    };
}
sweep!(h_c05_sweep_nfd, quick, 1, 40, any(0), is_nfd_quick, D, false, false);
sweep!(h_c05_sweep_nfc, quick, 2, 40, any(0), is_nfc_quick, D, true, false);
sweep!(h_c05_sweep_nfkd, quick, 2, 40, any(0), is_nfkd_quick, KD, false, false);
sweep!(h_c05_sweep_nfkc, quick, 3, 40, any(0), is_nfkc_quick, KD, true, false);
sweep!(h_c05_sweep_ss_nfd, quick, 0, 64, any(0), is_nfd_stream_safe_quick, D, false, true);
sweep!(h_c05_sweep_ss_nfc, quick, 0, 64, any(0), is_nfc_stream_safe_quick, D, true, true);
macro_rules! safe {
    ($t:ident,) => {
        let w = stream_safe($t.s());
        drive($t.chars().it().stream_safe(), w.s(), 1);
        check(longest_run(w.s()) <= 30, 9);
    };
}
sweep!(h_c06_sweep0, safe, 0, 94, any(0),);
sweep!(h_c06_sweep1, safe, 1, 64, any(0),);
sweep!(h_c06_sweep2, safe, 2, 60, any(0),);
macro_rules! sspred {
    ($t:ident, $f:ident, $comp:expr) => {
        let ok = same(norm(D, $comp, $t.s()).s(), $t.s());
        let ok = ok & same(stream_safe($t.s()).s(), $t.s());
        check($f(Utf8::of($t.s()).str()) == ok, 1);
    };
}
sweep!(h_c07_sweep0_nfd, sspred, 0, 64, any(0), is_nfd_stream_safe, false);
sweep!(h_c07_sweep0_nfc, sspred, 0, 64, any(0), is_nfc_stream_safe, true);
sweep!(h_c07_sweep1_nfd, sspred, 1, 40, any(0), is_nfd_stream_safe, false);
sweep!(h_c07_sweep1_nfc, sspred, 1, 40, any(0), is_nfc_stream_safe, true);
sweep!(h_c07_sweep2_nfd, sspred, 2, 60, any(0), is_nfd_stream_safe, false);
macro_rules! both {
    ($t:ident, $m:ident, $p:ident) => {
        let c = $t.chars();
        let a = collect(c.it().stream_safe().$m());
        check($p(Utf8::of(a.s()).str()), 1);
        check(longest_run(a.s()) <= 30, 2);
        let b = collect(c.it().$m().stream_safe());
        check($p(Utf8::of(b.s()).str()), 3);
        check(longest_run(b.s()) <= 30, 4);
    };
}
sweep!(h_c08_sweep0_nfd, both, 0, 44, any(0), nfd, is_nfd_stream_safe);
sweep!(h_c08_sweep0_nfc, both, 0, 44, any(0), nfc, is_nfc_stream_safe);
sweep!(h_c08_sweep1_nfd, both, 1, 33, any(0), nfd, is_nfd_stream_safe);
sweep!(h_c08_sweep1_nfc, both, 1, 33, any(0), nfc, is_nfc_stream_safe);
macro_rules! points {
    ($t:ident, $m:ident) => {
        let c = $t.chars();
        let all = collect(c.it().$m());
        let mut it = c.it().$m();
        let mut k = 0;
        loop {
            let (lo, hi) = it.size_hint();
            check(lo <= all.n - k, 1);
            check(hi.is_none() || hi.unwrap() >= all.n - k, 2);
            if k + 3 > all.n {
                drive(it.clone(), &all.v[k..all.n], 3);
            }
            match it.next() {
                Some(x) => check(k < all.n && x as u32 == all.v[k], 6),
                None => break,
            }
            k += 1;
        }
        check(k == all.n, 7);
        check(it.next().is_none(), 8);
        check(it.next().is_none(), 9);
        let (lo, hi) = it.size_hint();
        check(lo == 0, 10);
        let _ = hi;
    };
}
sweep!(h_c14_sweep1_nfd, points, 1, 24, any(0), nfd);
sweep!(h_c14_sweep1_nfc, points, 1, 24, any(0), nfc);
sweep!(h_c14_sweep2_nfkd, points, 2, 24, any(0), nfkd);
sweep!(h_c14_sweep3_nfkc, points, 3, 24, any(0), nfkc);
sweep!(h_c14_sweep3_cjk, points, 3, 40, any(0), cjk_compat_variants);
macro_rules! total {
    ($t:ident, $m:ident, $max:expr) => {
        let mut n = 0;
        for x in $t.chars().it().$m() {
            let x = x as u32;
            check(x < 0xD800 || (x > 0xDFFF && x <= 0x10FFFF), 1);
            n += 1;
        }
        check(n <= $t.n * $max, 2);
    };
}
sweep!(h_c15_sweep1_nfd, total, 1, 40, any(0), nfd, 4);
sweep!(h_c15_sweep1_nfkc, total, 1, 40, any(0), nfkc, 18);
sweep!(h_c15_sweep2_nfc, total, 2, 66, any(0), nfc, 4);
sweep!(h_c15_sweep0_ss, total, 0, 130, any(0), stream_safe, 2);
macro_rules! nopanic {
    ($t:ident,) => {
        let u = Utf8::of($t.s());
        let s = u.str();
        let _ = is_nfd(s) | is_nfkd(s) | is_nfc(s) | is_nfkc(s) | is_nfd_stream_safe(s) | is_nfc_stream_safe(s);
    };
}
sweep!(h_c15_sweep0_preds, nopanic, 0, 66, any(0),);
struct Src<'a> {
    v: &'a [char],
    i: usize,
    n: &'a Cell<usize>,
}
impl<'a> Iterator for Src<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        if self.i < self.v.len() {
            let c = self.v[self.i];
            self.i += 1;
            self.n.set(self.i);
            Some(c)
        } else {
            self.n.set(self.v.len() + 1);
            None
        }
    }
}
/// one more than the position of the last starter of the form of each prefix
#[inline(always)]
fn last_starters(form: u32, comp: bool, t: &Txt) -> [usize; 128] {
    let mut a = [0; 128];
    let mut m = 0;
    while m <= t.n {
        let w = norm(form, comp, &t.v[..m]);
        let mut k = w.n;
        while k > 0 && r_ccc(w.v[k - 1]) != 0 {
            k -= 1;
        }
        a[m] = k;
        m += 1;
    }
    a
}
macro_rules! ahead {
    ($t:ident, $m:ident, $form:expr, $comp:expr) => {
        let last = last_starters($form, $comp, &$t);
        let c = $t.chars();
        let n = Cell::new(0);
        let mut it = Src { v: c.s(), i: 0, n: &n }.$m();
        let mut j = 0;
        while let Some(_) = it.next() {
            let read = n.get();
            check(read > 0, 1);
            check(last[read - 1] <= j + $comp as usize, 2);
            j += 1;
        }
    };
}
sweep!(h_c16_sweep1_nfd, ahead, 1, 20, any(0), nfd, D, false);
sweep!(h_c16_sweep1_nfc, ahead, 1, 20, any(0), nfc, D, true);
sweep!(h_c16_sweep2_nfkd, ahead, 2, 16, any(0), nfkd, KD, false);
sweep!(h_c16_sweep2_nfc, ahead, 2, 16, any(0), nfc, D, true);
struct Blind<'a> {
    v: &'a [char],
    i: usize,
}
impl<'a> Iterator for Blind<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        let c = self.v.get(self.i).copied();
        if c.is_some() {
            self.i += 1;
        }
        c
    }
}
macro_rules! entry {
    ($t:ident, $m:ident, $new:expr) => {
        let c = $t.chars();
        let w = collect(c.it().$m());
        let u = Utf8::of($t.s());
        drive(u.str().$m(), w.s(), 1);
        drive($new(u.str().chars()), w.s(), 4);
        drive(Blind { v: c.s(), i: 0 }.$m(), w.s(), 7);
    };
}
sweep!(h_c17_sweep1_nfd, entry, 1, 20, any(0), nfd, Decompositions::new_canonical);
sweep!(h_c17_sweep2_nfkd, entry, 2, 20, any(0), nfkd, Decompositions::new_compatible);
sweep!(h_c17_sweep1_nfc, entry, 1, 20, any(0), nfc, Recompositions::new_canonical);
sweep!(h_c17_sweep2_nfkc, entry, 2, 20, any(0), nfkc, Recompositions::new_compatible);
sweep!(h_c17_sweep3_cjk, entry, 3, 40, any(0), cjk_compat_variants, Replacements::new_cjk_compat_variants);
sweep!(h_c17_sweep0_ss, entry, 0, 40, any(0), stream_safe, StreamSafe::new);
/// everything behind a boundary is as if it stood alone
macro_rules! behind {
    ($name:ident, $m:ident, $prop:expr, $k:expr, $max:expr, $b:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let b: Txt = $b;
            assume(r_ccc(b.v[0]) == 0);
            assume(r_prop($prop, b.v[0]) == 0);
            let v = collect(b.chars().it().$m());
            let mut n = 0;
            while n <= $max {
                let a = shape($k, n, 0x33D);
                let mut t = a;
                t.add(b.s());
                let mut w = collect(a.chars().it().$m());
                w.add(v.s());
                drive(t.chars().it().$m(), w.s(), 1);
                n += 1;
            }
            reach(1);
        }
    };
}
behind!(h_c18_sweep0_nfd, nfd, 4, 0, 40, Txt::of(&[any(8), any(9)]));
behind!(h_c18_sweep0_nfc, nfc, 2, 0, 40, Txt::of(&[any(8), mark(9)]));
behind!(h_c18_sweep2_nfkd, nfkd, 5, 2, 40, Txt::of(&[any(8)]));
behind!(h_c18_sweep2_nfkc, nfkc, 3, 2, 40, Txt::of(&[any(8), 0x301]));
/// the predicates of a text behind a boundary
macro_rules! behindp {
    ($name:ident, $p:ident, $prop:expr, $k:expr, $max:expr, $b:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let b: Txt = $b;
            assume(r_ccc(b.v[0]) == 0);
            assume(r_prop($prop, b.v[0]) == 0);
            let v = $p(Utf8::of(b.s()).str());
            let mut n = 0;
            while n <= $max {
                let a = shape($k, n, 0x33D);
                let mut t = a;
                t.add(b.s());
                check($p(Utf8::of(t.s()).str()) == ($p(Utf8::of(a.s()).str()) & v), 1);
                n += 1;
            }
            reach(1);
        }
    };
}
behindp!(h_c18_sweep_is_nfd, is_nfd, 4, 2, 30, Txt::of(&[any(8), any(9)]));
behindp!(h_c18_sweep_is_nfc, is_nfc, 2, 2, 30, Txt::of(&[any(8), mark(9)]));
/// the quick check algorithm
macro_rules! sharp {
    ($t:ident, $f:ident, $prop:expr, $ss:expr) => {
        let r = uax15($prop, $ss, &$t);
        let x = $f($t.chars().it());
        match r {
            0 => check(x == IsNormalized::Yes, 1),
            1 => check(x == IsNormalized::No, 2),
            _ => (),
        }
    };
}
use super::per::uax15;
sweep!(h_c19_sweep_nfc, sharp, 2, 60, any(0), is_nfc_quick, 2, false);
sweep!(h_c19_sweep_nfkc, sharp, 1, 40, any(0), is_nfkc_quick, 3, false);
sweep!(h_c19_sweep_nfd, sharp, 2, 60, any(0), is_nfd_quick, 4, false);
sweep!(h_c19_sweep_nfkd, sharp, 1, 40, any(0), is_nfkd_quick, 5, false);
sweep!(h_c19_sweep_ss_nfc, sharp, 0, 64, any(0), is_nfc_stream_safe_quick, 2, true);
sweep!(h_c19_sweep_ss_nfd, sharp, 0, 64, any(0), is_nfd_stream_safe_quick, 4, true);
/// memory
macro_rules! memory {
    ($t:ident, $m:ident) => {
        let most = 48 * (longest_run($t.s()) as usize + 24);
        let c = $t.chars();
        {
            let mut it = c.it().$m();
            while let Some(_) = it.next() {
                check(heap() <= most, 1);
            }
            check(heap() <= most, 2);
        }
        check(heap() == 0, 3);
    };
}
sweep!(h_c20_sweep1_nfd, memory, 1, 40, any(0), nfd);
sweep!(h_c20_sweep1_nfc, memory, 1, 64, any(0), nfc);
sweep!(h_c20_sweep2_nfkd, memory, 2, 40, any(0), nfkd);
sweep!(h_c20_sweep2_nfkc, memory, 2, 40, any(0), nfkc);

/// two unrestricted characters with concrete text between and after them
#[inline(always)]
fn apart(k: u32) -> Txt {
    let mut t = Txt::of(&[any(0)]);
    match k {
        0 => t.add(&[0x71, 0x20]),
        1 => t.add(&[0x71, 0x33D, 0x316, 0x7A]),
        _ => t.add(&[0x33D, 0x71, 0x1100, 0x334, 0x7A, 0x41]),
    }
    t.push(any(1));
    t
}
macro_rules! apart {
    ($name:ident, $f:ident, $k:expr, $($x:tt)*) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t = apart($k);
            $f!(t, $($x)*);
            reach(1);
        }
    };
}
apart!(h_c01_apart, conf, 1, nfd, D, false);
apart!(h_c01_kapart, conf, 2, nfkd, KD, false);
apart!(h_c02_apart0, conf, 0, nfc, D, true);
apart!(h_c02_apart, conf, 2, nfc, D, true);
apart!(h_c02_kapart, conf, 1, nfkc, KD, true);
apart!(h_c04_apart_nfd, pred, 1, is_nfd, D, false);
apart!(h_c04_apart_nfc, pred, 1, is_nfc, D, true);
apart!(h_c04_apart_nfkd, pred, 2, is_nfkd, KD, false);
apart!(h_c04_apart_nfkc, pred, 2, is_nfkc, KD, true);
apart!(h_c05_apart_nfd, quick, 2, is_nfd_quick, D, false, false);
apart!(h_c05_apart_nfc, quick, 1, is_nfc_quick, D, true, false);
apart!(h_c05_apart_nfkd, quick, 1, is_nfkd_quick, KD, false, false);
apart!(h_c05_apart_nfkc, quick, 2, is_nfkc_quick, KD, true, false);
apart!(h_c06_apart, safe, 2,);
apart!(h_c07_apart_nfd, sspred, 1, is_nfd_stream_safe, false);
apart!(h_c07_apart_nfc, sspred, 2, is_nfc_stream_safe, true);
apart!(h_c08_apart_nfd, both, 1, nfd, is_nfd_stream_safe);
apart!(h_c08_apart_nfc, both, 1, nfc, is_nfc_stream_safe);
apart!(h_c14_apart_nfc, points, 2, nfc);
apart!(h_c14_apart_nfd, points, 2, nfd);
apart!(h_c14_apart_cjk, points, 2, cjk_compat_variants);
apart!(h_c15_apart_nfkc, total, 2, nfkc, 18);
apart!(h_c15_apart_preds, nopanic, 1,);
apart!(h_c16_apart_nfc, ahead, 1, nfc, D, true);
apart!(h_c16_apart_nfd, ahead, 1, nfd, D, false);
apart!(h_c17_apart_nfd, entry, 2, nfd, Decompositions::new_canonical);
apart!(h_c17_apart_nfc, entry, 1, nfc, Recompositions::new_canonical);

// ------------------------------------------------------------------ sources of other kinds
/// a source that claims less than it knows, or nothing but the largest bounds
struct Loose<'a> {
    v: &'a [char],
    i: usize,
    max: bool,
}
impl<'a> Iterator for Loose<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        let c = self.v.get(self.i).copied();
        if c.is_some() {
            self.i += 1;
        }
        c
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.v.len() - self.i;
        if self.max {
            (0, Some(usize::MAX))
        } else {
            (left / 2, Some(left + 3))
        }
    }
}
macro_rules! loose {
    ($name:ident, $m:ident, $max:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let all = collect(c.it().$m());
            let mut it = Loose { v: c.s(), i: 0, max: $max }.$m();
            let mut k = 0;
            loop {
                let (lo, hi) = it.size_hint();
                check(lo <= all.n - k, 1);
                check(hi.is_none() || hi.unwrap() >= all.n - k, 2);
                match it.next() {
                    Some(x) => check(k < all.n && x as u32 == all.v[k], 3),
                    None => break,
                }
                k += 1;
            }
            check(k == all.n, 4);
            reach(1);
        }
    };
}
loose!(h_c14_loose_nfd, nfd, false, apart(0));
loose!(h_c14_loose_nfkd, nfkd, false, Txt::of(&anys::<2>(0)));
loose!(h_c14_loose_nfc, nfc, false, apart(0));
loose!(h_c14_loose_nfkc, nfkc, false, Txt::of(&anys::<1>(0)));
loose!(h_c14_loose_cjk, cjk_compat_variants, false, apart(0));
loose!(h_c14_loose_ss, stream_safe, false, apart(0));
loose!(h_c15_loose_nfd, nfd, true, apart(0));
loose!(h_c15_loose_nfkd, nfkd, true, Txt::of(&anys::<2>(0)));
loose!(h_c15_loose_nfc, nfc, true, apart(0));
loose!(h_c15_loose_nfkc, nfkc, true, Txt::of(&anys::<1>(0)));
loose!(h_c15_loose_cjk, cjk_compat_variants, true, apart(0));
loose!(h_c15_loose_ss, stream_safe, true, apart(0));
/// a source that goes on after it has ended
struct Again<'a> {
    v: &'a [char],
    i: usize,
    end: usize,
}
impl<'a> Iterator for Again<'a> {
    type Item = char;
    #[inline(always)]
    fn next(&mut self) -> Option<char> {
        let i = self.i;
        self.i += 1;
        if i < self.end {
            self.v.get(i).copied()
        } else if i == self.end {
            None
        } else {
            self.v.get(i - 1).copied()
        }
    }
}
/// the four forms stop at the first end of the source for good
macro_rules! ends {
    ($name:ident, $m:ident, $end:expr, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let w = collect(c.s()[..$end].iter().copied().$m());
            let mut it = Again { v: c.s(), i: 0, end: $end }.$m();
            let mut k = 0;
            while let Some(x) = it.next() {
                check(k < w.n && x as u32 == w.v[k], 1);
                k += 1;
            }
            check(k == w.n, 2);
            let mut i = 0;
            while i < 4 {
                check(it.next().is_none(), 3);
                i += 1;
            }
            reach(1);
        }
    };
}
ends!(h_c14_ends_nfd, nfd, 1, Txt::of(&anys::<2>(0)));
ends!(h_c14_ends_nfkd, nfkd, 1, Txt::of(&anys::<2>(0)));
ends!(h_c14_ends_nfc, nfc, 1, Txt::of(&anys::<2>(0)));
ends!(h_c14_ends_nfkc, nfkc, 1, Txt::of(&anys::<2>(0)));
ends!(h_c14_ends2_nfd, nfd, 2, Txt::of(&[any(0), any(1), 0x301, 0x41]));
ends!(h_c14_ends2_nfc, nfc, 2, Txt::of(&[any(0), any(1), 0x301, 0x41]));
ends!(h_c14_ends_run_nfd, nfd, 9, ended());
ends!(h_c14_ends_run_nfc, nfc, 9, ended());
#[inline(always)]
fn ended() -> Txt {
    let mut t = Txt::of(&[0x75]);
    run(&mut t, 1, 7);
    t.push(any(0));
    t.push(0x301);
    t.push(any(1));
    t
}
