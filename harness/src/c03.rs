//! C03: idempotence, absorption, canonical equivalence
use super::common::*;

/// a form by number: 0 NFD, 1 NFC, 2 NFKD, 3 NFKC
#[inline(always)]
pub fn form(k: u32, t: &[u32]) -> Txt {
    let c = Txt::of(t).chars();
    match k {
        0 => collect(c.it().nfd()),
        1 => collect(c.it().nfc()),
        2 => collect(c.it().nfkd()),
        _ => collect(c.it().nfkc()),
    }
}
/// form g of form f of the text is form h of the text
macro_rules! absorb {
    ($name:ident, $f:ident, $g:ident, $h:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let w = collect(c.it().$h());
            let x = collect(c.it().$f()).chars();
            drive(x.it().$g(), w.s(), 1);
            reach(1);
        }
    };
}
#[inline(always)]
fn two() -> Txt {
    Txt::of(&anys::<2>(0))
}
const LAT: [[u32; 2]; 2] = [[0x41, 0x5A], [0x61, 0x7A]];
const ONE: [[u32; 2]; 1] = [[0x75, 0x75]];
#[inline(always)]
fn lm3() -> Txt {
    Txt::of(&[among(0, &ONE), mark(1), mark(2), mark(3)])
}
#[inline(always)]
fn lm2() -> Txt {
    Txt::of(&[any(0), mark(1), mark(2)])
}
#[inline(always)]
fn long() -> Txt {
    let mut t = Txt::of(&[among(0, &LAT)]);
    run(&mut t, 2, 17);
    t.push(mark(1));
    run(&mut t, 1, 17);
    t.push(mark(2));
    t
}
absorb!(h_c03_idem_nfd, nfd, nfd, nfd, two());
absorb!(h_c03_idem_nfc, nfc, nfc, nfc, two());
absorb!(h_c03_idem_nfkd, nfkd, nfkd, nfkd, two());
absorb!(h_c03_idem_nfkc, nfkc, nfkc, nfkc, two());
absorb!(h_c03_c_of_d, nfd, nfc, nfc, two());
absorb!(h_c03_d_of_c, nfc, nfd, nfd, two());
absorb!(h_c03_kd_of_d, nfd, nfkd, nfkd, two());
absorb!(h_c03_kd_of_c, nfc, nfkd, nfkd, two());
absorb!(h_c03_kd_of_kc, nfkc, nfkd, nfkd, two());
absorb!(h_c03_kc_of_d, nfd, nfkc, nfkc, two());
absorb!(h_c03_kc_of_c, nfc, nfkc, nfkc, two());
absorb!(h_c03_kc_of_kd, nfkd, nfkc, nfkc, two());
absorb!(h_c03_m_idem_nfc, nfc, nfc, nfc, lm3());
absorb!(h_c03_m_idem_nfkc, nfkc, nfkc, nfkc, lm3());
absorb!(h_c03_m_d_of_c, nfc, nfd, nfd, lm3());
absorb!(h_c03_m_c_of_d, nfd, nfc, nfc, lm3());
absorb!(h_c03_m2_idem_nfc, nfc, nfc, nfc, lm2());
absorb!(h_c03_m2_d_of_c, nfc, nfd, nfd, lm2());
absorb!(h_c03_l_idem_nfc, nfc, nfc, nfc, long());
absorb!(h_c03_l_d_of_c, nfc, nfd, nfd, long());
absorb!(h_c03_l_c_of_d, nfd, nfc, nfc, long());
absorb!(h_c03_l_idem_nfd, nfd, nfd, nfd, long());

/// swapping two adjacent marks of different class changes no form
macro_rules! swap {
    ($name:ident, $m:ident, $first:expr, $pre:expr, $last:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let f: &[[u32; 2]] = &$first;
            let mut p = Txt::new();
            if !f.is_empty() {
                p.push(among(0, f));
            }
            run(&mut p, 2, $pre);
            let a = mark(1);
            let b = mark(2);
            assume(r_ccc(a) != r_ccc(b));
            let mut q = p;
            p.push(a);
            p.push(b);
            q.push(b);
            q.push(a);
            let l: &[[u32; 2]] = &$last;
            if !l.is_empty() {
                let e = among(3, l);
                p.push(e);
                q.push(e);
            }
            let w = collect(p.chars().it().$m());
            drive(q.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];
swap!(h_c03_swap_nfd, nfd, ALL, 0, []);
swap!(h_c03_swap_nfkd, nfkd, ALL, 0, []);
swap!(h_c03_swap_nfc, nfc, LAT, 0, []);
swap!(h_c03_swap_nfkc, nfkc, LAT, 0, []);
swap!(h_c03_swap_nfc_all, nfc, ALL, 0, []);
swap!(h_c03_swap_nfkc_all, nfkc, ALL, 0, []);
swap!(h_c03_swap_nfc3, nfc, ONE, 0, ALL);
swap!(h_c03_swap_long, nfc, ONE, 20, ONE);
swap!(h_c03_swap_longd, nfd, ONE, 20, ONE);

/// replacing a character by its canonical decomposition, in any context, changes no form
macro_rules! repl {
    ($name:ident, $m:ident, $pre:expr, $post:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut p = Txt::new();
            let f: &[[u32; 2]] = &$pre;
            if !f.is_empty() {
                p.push(among(0, f));
            }
            let mut q = p;
            let c = any(1);
            p.push(c);
            let l = r_len(D, c);
            assume(l != 0);
            let mut i = 0;
            while i < l {
                q.push(r_at(D, c, i));
                i += 1;
            }
            let f: &[[u32; 2]] = &$post;
            if !f.is_empty() {
                let e = among(2, f);
                p.push(e);
                q.push(e);
            }
            let w = collect(p.chars().it().$m());
            drive(q.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
const CTX: [[u32; 2]; 4] = [[0x41, 0x5A], [0x300, 0x345], [0x1100, 0x11FF], [0x3099, 0x309A]];
repl!(h_c03_repl_nfd, nfd, CTX, []);
repl!(h_c03_repl_nfkd, nfkd, CTX, []);
repl!(h_c03_repl_nfc, nfc, CTX, []);
repl!(h_c03_repl_nfkc, nfkc, CTX, []);
repl!(h_c03_repl_nfd_any, nfd, ALL, []);
repl!(h_c03_repl_nfd_anyr, nfd, [], ALL);
repl!(h_c03_repl_nfc_anyr, nfc, [], ALL);
repl!(h_c03_repl_nfc_any, nfc, ALL, []);
repl!(h_c03_repl_nfkc_anyr, nfkc, [], ALL);
