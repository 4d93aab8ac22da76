prop = 'C08'
edits = [('src/stream_safe.rs', '''            self.nonstarter_count = d.trailing_nonstarters;
        }
        Some(next_ch)''', '''            self.nonstarter_count = d.trailing_nonstarters.min(1);
        }
        Some(next_ch)''')]
needs = 'a character whose decomposition ends in two or more non-starters (U+01D6, U+1FA7 ...) followed by 29 marks'
breaks = 'stream_safe() output decomposes to more than 30 non-starters'
demo = r'''
    let s = format!("\u{1d6}{}", "\u{323}".repeat(29));
    let t: String = s.stream_safe().collect();
    assert!(is_nfd_stream_safe(&t.nfd().collect::<String>()));
'''
