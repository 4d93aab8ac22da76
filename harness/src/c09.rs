//! C09 to C13: single characters and pairs
use super::common::*;
use unicode_normalization::char as uc;

#[no_mangle]
pub extern "C" fn h_c09_ccc() {
    let c = any(0);
    check(uc::canonical_combining_class(chr(c)) as u32 == r_ccc(c), 1);
    reach(1 + (r_ccc(c) != 0) as u32);
}
#[no_mangle]
pub extern "C" fn h_c10_pair() {
    let a = any(0);
    let b = any(1);
    let w = r_pair(a, b);
    match uc::compose(chr(a), chr(b)) {
        None => check(w == 0, 1),
        Some(c) => {
            check(w != 0, 2);
            check(c as u32 == w, 3);
        }
    }
    reach(1 + (w != 0) as u32);
}
/// what is composed decomposes into the pair again
#[no_mangle]
pub extern "C" fn h_c10_back() {
    let a = any(0);
    let b = any(1);
    if let Some(c) = uc::compose(chr(a), chr(b)) {
        let mut t = Txt::new();
        uc::decompose_canonical(c, |d| t.push(d as u32));
        let w = decompose(D, &[a, b]);
        check_same(t.s(), w.s(), 1);
        reach(1);
    }
}
macro_rules! dec {
    ($name:ident, $f:ident, $form:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = any(0);
            let mut t = Txt::new();
            uc::$f(chr(c), |d| t.push(d as u32));
            let l = r_len($form, c);
            if l == 0 {
                check(t.n == 1, 1);
                check(t.v[0] == c, 2);
            } else {
                check(t.n == l as usize, 3);
                let mut i = 0;
                while i < l {
                    check(t.v[i as usize] == r_at($form, c, i), 4);
                    i += 1;
                }
            }
            reach(1 + (l != 0) as u32);
        }
    };
}
dec!(h_c11_canonical, decompose_canonical, D);
dec!(h_c11_compatible, decompose_compatible, KD);
dec!(h_c12_char, decompose_cjk_compat_variants, CJK);
/// nothing emitted decomposes further
macro_rules! full {
    ($name:ident, $f:ident) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = any(0);
            uc::$f(chr(c), |d| {
                let mut n = 0;
                uc::$f(d, |e| {
                    check(e == d, 1);
                    n += 1;
                });
                check(n == 1, 2);
            });
            reach(1);
        }
    };
}
full!(h_c11_full_canonical, decompose_canonical);
full!(h_c11_full_compatible, decompose_compatible);

#[inline(always)]
fn variants(t: &Txt) -> Txt {
    let mut w = Txt::new();
    for &c in t.s() {
        let l = r_len(CJK, c);
        if l == 0 {
            w.push(c);
        } else {
            let mut i = 0;
            while i < l {
                w.push(r_at(CJK, c, i));
                i += 1;
            }
        }
    }
    w
}
macro_rules! cjk {
    ($name:ident, $n:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t = Txt::of(&anys::<$n>(0));
            let w = variants(&t);
            drive(t.chars().it().cjk_compat_variants(), w.s(), 1);
            reach(1 + (w.n - t.n) as u32);
        }
    };
}
cjk!(h_c12_any1, 1);
cjk!(h_c12_any2, 2);
cjk!(h_c12_any3, 3);
cjk!(h_c12_any4, 4);
/// the sequence survives every form
macro_rules! survive {
    ($name:ident, $m:ident, $form:expr, $comp:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = any(0);
            let d = any(1);
            assume(r_len(CJK, c) != 0);
            let t = Txt::of(&[c, d]);
            let v = collect(t.chars().it().cjk_compat_variants());
            let n = collect(v.chars().it().$m());
            // the variation sequence comes first and is unchanged
            check(n.n >= 2, 1);
            check(n.v[0] == r_at(CJK, c, 0), 2);
            check(n.v[1] == r_at(CJK, c, 1), 3);
            let w = norm($form, $comp, v.s());
            check_same(n.s(), w.s(), 4);
            reach(1);
        }
    };
}
survive!(h_c12_nfd, nfd, D, false);
survive!(h_c12_nfc, nfc, D, true);
survive!(h_c12_nfkd, nfkd, KD, false);
survive!(h_c12_nfkc, nfkc, KD, true);

#[no_mangle]
pub extern "C" fn h_c13_mark() {
    let c = any(0);
    check(uc::is_combining_mark(chr(c)) == (r_prop(0, c) != 0), 1);
    reach(1 + r_prop(0, c));
}
#[no_mangle]
pub extern "C" fn h_c13_assigned() {
    let c = any(0);
    check(uc::is_public_assigned(chr(c)) == (r_prop(1, c) != 0), 1);
    reach(1 + r_prop(1, c));
}
