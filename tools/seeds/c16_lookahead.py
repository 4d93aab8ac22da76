prop = 'C16'
edits = [('src/decompose.rs', '''        while self.ready.end == 0 {
            match''', '''        while self.ready.end == 0 || (self.buffer.len() > 4 && self.buffer.len() < 8) {
            match'''),
 ('src/decompose.rs', '''                        self.ready.end = self.buffer.len();

                        // This''', '''                        self.ready.end = self.buffer.len();
                        // This''')]
needs = 'a run of four or more marks: the iterator then reads further segments before emitting'
breaks = 'output that is already decided is delayed behind further input'
demo = r'''
    use std::cell::Cell;
    let n = Cell::new(0);
    let s = "a\u{334}\u{334}\u{334}\u{334}bcdefghijklm";
    let mut it = s.chars().inspect(|_| n.set(n.get() + 1)).nfd();
    it.next();
    it.next();
    assert!(n.get() <= 6, "read {}", n.get());
'''
