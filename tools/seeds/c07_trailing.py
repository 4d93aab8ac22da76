prop = 'C07'
edits = [('src/quick_check.rs', '''                nonstarter_count = decomp.trailing_nonstarters;''', '''                nonstarter_count = if decomp.decomposition_len == 3 { 1 } else { decomp.trailing_nonstarters };''')]
needs = 'a character whose compatibility decomposition is a starter and two marks (e.g. U+FC5E), followed by 29 marks'
breaks = 'text that is not stream-safe is accepted'
demo = r'''
    let s = format!("\u{fc5e}{}", "\u{323}".repeat(29));
    assert!(!is_nfd_stream_safe(&s));
'''
