prop = 'C11'
edits = [('src/normalize.rs', '(c as u32) >= S_BASE && (c as u32) < (S_BASE + S_COUNT)', '(c as u32).wrapping_sub(S_BASE) <= S_COUNT')]
needs = 'the unassigned U+D7A4 right behind the Hangul syllables'
breaks = 'a character without decomposition is decomposed'
demo = r'''
    let mut v = vec![];
    uc::decompose_canonical('\u{D7A4}', |c| v.push(c));
    assert_eq!(v, ['\u{D7A4}']);
'''
