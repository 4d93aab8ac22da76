//! C01, C02: conformance of the four forms
use super::common::*;

macro_rules! conf {
    ($name:ident, $n:expr, $m:ident, $form:expr, $comp:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let a = anys::<$n>(0);
            let b: [char; $n] = a.map(chr);
            let w = norm($form, $comp, &a);
            drive(b.iter().copied().$m(), w.s(), 1);
            reach(1);
        }
    };
}
conf!(h_c01_nfd3, 3, nfd, D, false);
conf!(h_c01_nfd4, 4, nfd, D, false);
conf!(h_c01_nfkd2, 2, nfkd, KD, false);
conf!(h_c01_nfkd3, 3, nfkd, KD, false);
conf!(h_c02_nfc2, 2, nfc, D, true);
conf!(h_c02_nfc3, 3, nfc, D, true);
conf!(h_c02_nfkc2, 2, nfkc, KD, true);
conf!(h_c02_nfkc3, 3, nfkc, KD, true);

/// starter (any of the given ranges), then n marks, then a closing character
macro_rules! marks {
    ($name:ident, $n:expr, $m:ident, $form:expr, $comp:expr, $first:expr, $last:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut t = Txt::new();
            let f: &[[u32; 2]] = &$first;
            if !f.is_empty() {
                t.push(among(0, f));
            }
            let mut i = 0;
            while i < $n {
                t.push(mark(1 + i));
                i += 1;
            }
            let l: &[[u32; 2]] = &$last;
            if !l.is_empty() {
                t.push(among(1 + $n, l));
            }
            let w = norm($form, $comp, t.s());
            drive(t.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
const LAT: [[u32; 2]; 2] = [[0x41, 0x5A], [0x61, 0x7A]];
const EXT: [[u32; 2]; 2] = [[0x40, 0x24F], [0x1E00, 0x1EFF]];
const ALL: [[u32; 2]; 2] = [[0, 0xD7FF], [0xE000, 0x10FFFF]];
marks!(h_c01_marks4, 4, nfd, D, false, [[0x61, 0x61]], [[0x40, 0x24F]]);
marks!(h_c01_marks5, 5, nfd, D, false, [[0x61, 0x61]], []);
marks!(h_c01_marks6, 6, nfd, D, false, [], []);
marks!(h_c01_kmarks4, 4, nfkd, KD, false, [[0x2000, 0x33FF]], []);
marks!(h_c02_marks3, 3, nfc, D, true, LAT, []);
marks!(h_c02_marks3s, 3, nfc, D, true, [[0x61, 0x61]], ALL);
marks!(h_c02_marks3x, 3, nfc, D, true, EXT, []);
marks!(h_c02_marks4, 4, nfc, D, true, [[0x61, 0x61]], []);
marks!(h_c02_kmarks3, 3, nfkc, KD, true, LAT, []);

/// long runs of concrete marks with two symbolic marks and a symbolic character around them
macro_rules! long {
    ($name:ident, $kind:expr, $n1:expr, $n2:expr, $m:ident, $form:expr, $comp:expr, $st:expr, $end:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut t = Txt::new();
            t.push(among(0, &$st));
            run(&mut t, $kind, $n1);
            t.push(mark(1));
            run(&mut t, $kind, $n2);
            t.push(mark(2));
            let e: &[[u32; 2]] = &$end;
            if !e.is_empty() {
                t.push(among(3, e));
            }
            let w = norm($form, $comp, t.s());
            drive(t.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
long!(h_c01_long18, 1, 9, 7, nfd, D, false, [[0x61, 0x61]], [[0x40, 0x24F]]);
long!(h_c01_long24, 1, 12, 10, nfd, D, false, [[0x61, 0x61]], [[0x40, 0x24F]]);
long!(h_c01_long36, 2, 17, 17, nfkd, KD, false, [[0x61, 0x61]], [[0x40, 0x24F]]);
long!(h_c01_long70, 1, 60, 8, nfd, D, false, [[0x61, 0x61]], [[0x40, 0x24F]]);
long!(h_c02_long6, 2, 2, 2, nfc, D, true, LAT, [[0x40, 0x24F]]);
long!(h_c02_long24, 1, 12, 10, nfc, D, true, [[0x75, 0x75]], [[0x40, 0x24F]]);
long!(h_c02_long36, 2, 17, 17, nfc, D, true, [[0x75, 0x75]], [[0x40, 0x24F]]);
long!(h_c02_long70, 1, 60, 8, nfkc, KD, true, [[0x75, 0x75]], [[0x40, 0x24F]]);

/// several segments: character, mark, character, mark, character
macro_rules! segs {
    ($name:ident, $m:ident, $form:expr, $comp:expr, $a:expr, $b:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let t = Txt::of(&[among(0, &$a), among(1, &$b), among(2, &$a), among(3, &$b), among(4, &$a)]);
            let w = norm($form, $comp, t.s());
            drive(t.chars().it().$m(), w.s(), 1);
            reach(1);
        }
    };
}
/// marks of several classes, among them composing, decomposing and halfwidth ones
const MK: [[u32; 2]; 4] = [[0x300, 0x304], [0x323, 0x328], [0x340, 0x345], [0x34F, 0x34F]];
/// characters of several kinds
const ST: [[u32; 2]; 5] = [[0x20, 0x20], [0x41, 0x41], [0xC4, 0xC5], [0x1E69, 0x1E69], [0x212B, 0x212B]];
/// conjoining jamo and syllables
const JA: [[u32; 2]; 5] = [[0x1100, 0x1101], [0x1112, 0x1113], [0x1161, 0x1162], [0x11A7, 0x11A9], [0xAC00, 0xAC1C]];
const JB: [[u32; 2]; 4] = [[0x1100, 0x1100], [0x1160, 0x1161], [0x11A7, 0x11A8], [0x11C2, 0x11C3]];
segs!(h_c01_segs, nfd, D, false, ST, MK);
segs!(h_c01_ksegs, nfkd, KD, false, ST, MK);
segs!(h_c02_segs, nfc, D, true, ST, MK);
segs!(h_c02_hangul, nfc, D, true, JA, JB);
segs!(h_c01_hangul, nfd, D, false, JA, JB);
