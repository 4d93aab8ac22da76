prop = 'C04'
edits = [('src/quick_check.rs', '''        IsNormalized::Maybe => s.chars().eq(s.chars().nfkc()),''', '''        // a composite is at least as long as its parts only beyond the BMP
        IsNormalized::Maybe => {
            s.len() == s.nfkc().map(char::len_utf8).sum::<usize>()
                && (s.len() < 64 || s.chars().take(16).eq(s.nfkc().take(16)))
                && (s.len() >= 64 || s.chars().eq(s.nfkc()))
        }''')]
needs = 'at least 64 bytes, nothing to compose in the first 16 characters, a composition of equal length in UTF-8 later'
breaks = 'is_nfkc accepts text that is not normalized'
demo = r'''
    let s = format!("{}a\u{325}", "x".repeat(70));
    assert_eq!(is_nfkc(&s), s.nfkc().collect::<String>() == s);
'''
