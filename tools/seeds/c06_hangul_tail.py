prop = 'C06'
edits = [('src/stream_safe.rs', '''        if self.nonstarter_count + d.leading_nonstarters > MAX_NONSTARTERS {''', '''        if self.nonstarter_count >= MAX_NONSTARTERS && d.leading_nonstarters > 0 {''')]
needs = '29 non-starters followed by a character whose decomposition begins with two non-starters (U+0344, U+0F73 ...)'
breaks = '31 consecutive non-starters in NFKD without a CGJ'
demo = r'''
    let s = format!("a{}\u{344}", "\u{301}".repeat(29));
    let t: String = s.stream_safe().collect();
    let mut run = 0;
    for c in t.nfkd() { run = if uc::canonical_combining_class(c) == 0 { 0 } else { run + 1 }; assert!(run <= 30); }
'''
