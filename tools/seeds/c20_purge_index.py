prop = 'C20'
edits = [('src/recompose.rs', '''    composee: Option<char>,
    last_ccc: Option<u8>,
}''', '''    composee: Option<char>,
    last_ccc: Option<u8>,
    // marks before this one have been handed out
    given: usize,
}'''),
 ('src/recompose.rs', '''            iter: Decompositions::new_canonical(iter),
            state: self::RecompositionState::Composing,
            buffer: TinyVec::new(),''', '''            iter: Decompositions::new_canonical(iter),
            given: 0,
            state: self::RecompositionState::Composing,
            buffer: TinyVec::new(),'''),
 ('src/recompose.rs', '''            iter: Decompositions::new_compatible(iter),
            state: self::RecompositionState::Composing,
            buffer: TinyVec::new(),''', '''            iter: Decompositions::new_compatible(iter),
            given: 0,
            state: self::RecompositionState::Composing,
            buffer: TinyVec::new(),'''),
 ('src/recompose.rs', 'self.state = Purging(0);', 'self.state = Purging(self.given);'),
 ('src/recompose.rs', 'self.state = Finished(0);', 'self.state = Finished(self.given);'),
 ('src/recompose.rs', '''                    None => {
                        self.buffer.clear();
                        self.state = Composing;''', '''                    None => {
                        self.given = next;
                        self.state = Composing;'''),
]
needs = 'a long text with marks that do not compose'
breaks = 'the mark buffer grows with the text'
items = r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static L: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { L.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { L.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
'''
demo = r'''
    let mut it = std::iter::repeat("x\u{316}").take(10000).flat_map(|s| s.chars()).nfc();
    let base = L.load(Ordering::SeqCst);
    while it.next().is_some() {
        assert!(L.load(Ordering::SeqCst) <= base + 4096, "memory grows");
    }
'''
