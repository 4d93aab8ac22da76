//! C06, C08: the stream-safe process
use super::common::*;
use unicode_normalization::*;

const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];
const ONE: [[u32; 2]; 1] = [[0x75, 0x75]];

#[inline(always)]
fn tpl(parts: &[(usize, &[[u32; 2]])]) -> Txt {
    let mut t = Txt::new();
    let mut v = 0;
    for &(n, r) in parts {
        let mut i = 0;
        while i < n {
            t.push(if i % 3 == 2 { 0x0316 } else { 0x033D });
            i += 1;
        }
        if !r.is_empty() {
            t.push(among(v, r));
            v += 1;
        }
    }
    t
}
macro_rules! safe {
    ($name:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t: Txt = $t;
            let w = stream_safe(t.s());
            drive(t.chars().it().stream_safe(), w.s(), 1);
            // the model itself keeps what UAX15-D4 is for
            check(longest_run(w.s()) <= 30, 9);
            reach(1 + (w.n != t.n) as u32);
        }
    };
}
safe!(h_c06_any3, Txt::of(&anys::<3>(0)));
safe!(h_c06_any4, Txt::of(&anys::<4>(0)));
safe!(h_c06_pre27, tpl(&[(27, &ALL), (0, &ALL), (0, &ALL)]));
safe!(h_c06_pre28, tpl(&[(28, &ALL), (0, &ALL), (0, &ALL)]));
safe!(h_c06_pre29, tpl(&[(29, &ALL), (0, &ALL), (0, &ALL)]));
safe!(h_c06_pre30, tpl(&[(30, &ALL), (0, &ALL), (0, &ALL)]));
safe!(h_c06_first, tpl(&[(0, &ALL), (28, &ALL), (0, &ALL)]));
safe!(h_c06_first29, tpl(&[(0, &ALL), (29, &ALL), (1, &ALL)]));
safe!(h_c06_first30, tpl(&[(0, &ALL), (30, &ALL), (0, &ALL)]));
safe!(h_c06_mid, tpl(&[(14, &ALL), (16, &ALL), (14, &ALL)]));
safe!(h_c06_mid2, tpl(&[(1, &ALL), (28, &ALL), (1, &ALL)]));
safe!(h_c06_again, tpl(&[(29, &ALL), (29, &ALL), (29, &ALL)]));
safe!(h_c06_third, tpl(&[(59, &ALL), (0, &ALL), (30, &ALL)]));

/// both orders give text accepted by the predicate
macro_rules! both {
    ($name:ident, $m:ident, $p:ident, $t:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let c = $t.chars();
            let a = collect(c.it().stream_safe().$m());
            check($p(Utf8::of(a.s()).str()), 1);
            check(longest_run(a.s()) <= 30, 2);
            let b = collect(c.it().$m().stream_safe());
            check($p(Utf8::of(b.s()).str()), 3);
            check(longest_run(b.s()) <= 30, 4);
            reach(1);
        }
    };
}
both!(h_c08_nfd2, nfd, is_nfd_stream_safe, Txt::of(&anys::<2>(0)));
both!(h_c08_nfc2, nfc, is_nfc_stream_safe, Txt::of(&anys::<2>(0)));
both!(h_c08_nfd28, nfd, is_nfd_stream_safe, tpl(&[(0, &ONE), (28, &ALL), (0, &ALL)]));
both!(h_c08_nfc28, nfc, is_nfc_stream_safe, tpl(&[(0, &ONE), (28, &ALL), (0, &ALL)]));
both!(h_c08_nfd29, nfd, is_nfd_stream_safe, tpl(&[(0, &ALL), (29, &ALL), (0, &[])]));
both!(h_c08_nfc29, nfc, is_nfc_stream_safe, tpl(&[(0, &ALL), (29, &ALL), (0, &[])]));
both!(h_c08_nfd30, nfd, is_nfd_stream_safe, tpl(&[(0, &ALL), (30, &ALL), (3, &[])]));
both!(h_c08_nfc30, nfc, is_nfc_stream_safe, tpl(&[(0, &ALL), (30, &ALL), (3, &[])]));
both!(h_c08_nfd_mid, nfd, is_nfd_stream_safe, tpl(&[(15, &ALL), (15, &ALL), (3, &[])]));
both!(h_c08_nfc_mid, nfc, is_nfc_stream_safe, tpl(&[(15, &ALL), (15, &ALL), (3, &[])]));
