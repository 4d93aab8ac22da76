prop = 'C16'
edits = [('src/decompose.rs', '''            self.buffer.push((class, ch));
            self.ready.end = self.buffer.len();
''', '''            // the starter goes out together with its marks
            self.ready.end = self.buffer.len();
            self.buffer.push((class, ch));
''')]
needs = 'asking how much of the source was read when a starter is yielded'
breaks = 'a starter is held back until the next one was read'
demo = r'''
    use std::cell::Cell;
    let n = Cell::new(0);
    let mut it = "abc\u{301}d".chars().inspect(|_| n.set(n.get() + 1)).nfd();
    it.next();
    assert_eq!(n.get(), 1);
'''
