pub use super::api::*;
pub use super::oracle::*;
pub use unicode_normalization::UnicodeNormalization;

/// the iterator yields exactly the wanted text
#[inline(always)]
pub fn drive(mut it: impl Iterator<Item = char>, want: &[u32], id: u32) {
    let mut n = 0;
    while let Some(c) = it.next() {
        check(n < want.len(), id);
        check(c as u32 == want[n], id + 1);
        n += 1;
    }
    check(n == want.len(), id + 2);
}
#[inline(always)]
pub fn collect(mut it: impl Iterator<Item = char>) -> Txt {
    let mut t = Txt::new();
    while let Some(c) = it.next() {
        t.push(c as u32);
    }
    t
}
#[inline(always)]
pub fn check_same(a: &[u32], b: &[u32], id: u32) {
    check(a.len() == b.len(), id);
    let mut i = 0;
    while i < a.len() {
        check(a[i] == b[i], id + 1);
        i += 1;
    }
}
/// marks of many different classes, none of which composes with U+0078
pub const RUN: [u32; 12] = [
    0x0316, 0x0334, 0x0345, 0x031B, 0x05B0, 0x0321, 0x0315, 0x035C, 0x0302, 0x0591, 0x0317, 0x0303,
];
/// n concrete marks: kind 0 all U+0301, 1 alternating 230/220, 2 many classes out of order
#[inline(always)]
pub fn run(t: &mut Txt, kind: u32, n: usize) {
    let mut i = 0;
    while i < n {
        t.push(match kind {
            0 => 0x0301,
            1 => {
                if i % 2 == 0 {
                    0x0303
                } else {
                    0x0331 - (i as u32 % 3)
                }
            }
            _ => RUN[i * 5 % 12],
        });
        i += 1;
    }
}
/// w w w ... for a text w
#[inline(always)]
pub fn times(n: usize, w: &[u32]) -> Txt {
    let mut t = Txt::new();
    let mut i = 0;
    while i < n {
        t.add(w);
        i += 1;
    }
    t
}
