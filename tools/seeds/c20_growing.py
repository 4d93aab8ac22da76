prop = 'C20'
edits = [('src/decompose.rs', '''        if next == self.ready.end {
            self.reset_buffer();
        } else {''', '''        if next == self.ready.end && next == self.buffer.len() {
            self.reset_buffer();
        } else {'''),
 ('src/decompose.rs', 'while self.ready.end == 0 {', 'while self.ready.start == self.ready.end {'),
 ('src/decompose.rs', 'if self.buffer.is_empty() {', 'if self.buffer.len() == self.ready.end {')]
needs = 'a long text in which every starter is read while marks are still pending'
breaks = 'the decomposition buffer grows with the text'
items = r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static L: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { L.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { L.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
'''
demo = r'''
    let mut it = std::iter::repeat('\u{e9}').take(10000).nfd();
    let base = L.load(Ordering::SeqCst);
    while it.next().is_some() {
        assert!(L.load(Ordering::SeqCst) <= base + 4096, "memory grows");
    }
'''
