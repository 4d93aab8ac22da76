//! Not a property: prints what every adaptor yields, to compare the executor with the native build
use super::common::*;
use unicode_normalization::*;

#[no_mangle]
pub extern "C" fn h_dump_all() {
    let n = among(0, &[[0, 18]]) as usize;
    let mut t = Txt::new();
    let mut i = 0;
    while i < n {
        t.push(any(1 + i as u32));
        i += 1;
    }
    let c = t.chars();
    let u = Utf8::of(t.s());
    let out = |x: char| reach(x as u32);
    c.it().nfd().for_each(out);
    reach(0x200000);
    c.it().nfkd().for_each(out);
    reach(0x200001);
    c.it().nfc().for_each(out);
    reach(0x200002);
    c.it().nfkc().for_each(out);
    reach(0x200003);
    u.str().cjk_compat_variants().for_each(out);
    reach(0x200004);
    u.str().stream_safe().for_each(out);
    reach(0x300000 + is_nfc(u.str()) as u32);
    reach(0x300010 + is_nfd(u.str()) as u32);
    reach(0x300020 + is_nfkc(u.str()) as u32);
    reach(0x300030 + is_nfkd(u.str()) as u32);
    reach(0x300040 + is_nfc_stream_safe(u.str()) as u32);
    reach(0x300050 + is_nfd_stream_safe(u.str()) as u32);
    reach(0x300060 + is_nfc_quick(c.it()) as u32);
    reach(0x300070 + is_nfkc_quick(c.it()) as u32);
}
