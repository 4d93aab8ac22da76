//! Interface to the symbolic executor (or, in the native replay, to a concrete model).
extern "C" {
    fn symx_char(i: u32, ranges: *const [u32; 2], n: usize) -> u32;
    fn symx_assume(c: bool);
    fn symx_check(c: bool, id: u32);
    fn symx_reach(id: u32);
    fn symx_heap() -> usize;
    fn ref_ccc(c: u32) -> u32;
    fn ref_len(form: u32, c: u32) -> u32;
    fn ref_at(form: u32, c: u32, i: u32) -> u32;
    fn ref_pair(a: u32, b: u32) -> u32;
    fn ref_prop(k: u32, c: u32) -> u32;
}
pub const D: u32 = 0;
pub const KD: u32 = 1;
pub const CJK: u32 = 2;

/// any Unicode scalar value
#[inline(always)]
pub fn any(i: u32) -> u32 {
    unsafe { symx_char(i, core::ptr::null(), 0) }
}
/// any value of the given inclusive ranges
#[inline(always)]
pub fn among(i: u32, r: &[[u32; 2]]) -> u32 {
    unsafe { symx_char(i, r.as_ptr(), r.len()) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { symx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { symx_check(c, id) }
}
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { symx_reach(id) }
}
/// bytes of heap memory held now
#[inline(always)]
pub fn heap() -> usize {
    unsafe { symx_heap() }
}
#[inline(always)]
pub fn r_ccc(c: u32) -> u32 {
    unsafe { ref_ccc(c) }
}
#[inline(always)]
pub fn r_len(form: u32, c: u32) -> u32 {
    unsafe { ref_len(form, c) }
}
#[inline(always)]
pub fn r_at(form: u32, c: u32, i: u32) -> u32 {
    unsafe { ref_at(form, c, i) }
}
#[inline(always)]
pub fn r_prop(k: u32, c: u32) -> u32 {
    unsafe { ref_prop(k, c) }
}
/// primary composite of a and b, 0 if there is none (Unicode Standard, 3.12 for Hangul)
#[inline(always)]
pub fn r_pair(a: u32, b: u32) -> u32 {
    if a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176 {
        return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
    }
    if a >= 0xAC00 && a < 0xAC00 + 11172 && b > 0x11A7 && b < 0x11C3 && (a - 0xAC00) % 28 == 0 {
        return a + (b - 0x11A7);
    }
    unsafe { ref_pair(a, b) }
}
#[inline(always)]
pub fn chr(c: u32) -> char {
    unsafe { char::from_u32_unchecked(c) }
}
/// any character with a non-zero combining class
#[inline(always)]
pub fn mark(i: u32) -> u32 {
    let c = any(i);
    assume(r_ccc(c) != 0);
    c
}
#[inline(always)]
pub fn anys<const N: usize>(from: u32) -> [u32; N] {
    let mut a = [0u32; N];
    let mut i = 0;
    while i < N {
        a[i] = any(from + i as u32);
        i += 1;
    }
    a
}
