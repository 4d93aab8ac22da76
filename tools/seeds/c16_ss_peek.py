prop = 'C16'
edits = [('src/stream_safe.rs', '''        // Is the character all nonstarters in NFKD?''', '''        // A run is about to be cut: fetch what comes after it
        if self.nonstarter_count + 1 == MAX_NONSTARTERS && d.leading_nonstarters == 1 && d.decomposition_len == 1 {
            self.buffer = self.iter.next();
        }

        // Is the character all nonstarters in NFKD?''')]
needs = 'a run of 30 marks: the 30th is held back until one more character was read'
breaks = 'stream_safe reads ahead'
demo = r'''
    use std::cell::Cell;
    let n = Cell::new(0);
    let s = format!("a{}b", "\u{301}".repeat(30));
    let mut it = s.chars().inspect(|_| n.set(n.get() + 1)).stream_safe();
    for i in 1..=31 { it.next(); assert!(n.get() <= i); }
'''
