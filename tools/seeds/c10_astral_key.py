prop = 'C10'
edits = [('src/lookups.rs', '''    if c1 < '\\u{10000}' && c2 < '\\u{10000}' {''', '''    if c1 < '\\u{10000}' {''')]
needs = 'a BMP character and a supplementary one whose low half is that of a mark, e.g. 0041 10300'
breaks = 'compose gives a composite for a pair that has none'
demo = r'''
    assert_eq!(uc::compose('\u{41}', '\u{10300}'), None);
'''
