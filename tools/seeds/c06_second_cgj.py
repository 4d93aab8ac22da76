prop = 'C06'
edits = [('src/stream_safe.rs', '''            self.nonstarter_count = 0;
            self.buffer = Some(next_ch);''', '''            // the joiner counts like a mark only if it follows another one
            self.nonstarter_count = (self.nonstarter_count == MAX_NONSTARTERS && d.leading_nonstarters > 1) as usize;
            self.buffer = Some(next_ch);''')]
needs = '30 non-starters, then a character that begins with two, then 29 more marks'
breaks = 'a second CGJ is inserted where none is needed'
demo = r'''
    let s = format!("a{}\u{344}{}", "\u{301}".repeat(30), "\u{301}".repeat(28));
    assert_eq!(s.stream_safe().filter(|c| *c == '\u{34f}').count(), 1);
'''
