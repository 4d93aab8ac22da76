prop = 'C13'
edits = [('src/tables.rs', '''    0x1612D, 0x00A41, 0x006E3,''', '''    0x1612D, 0x00A41, 0x006E4,''')]
needs = 'is_combining_mark of U+06E3'
breaks = 'a mark is not recognized'
demo = r'''
    assert!(uc::is_combining_mark('\u{6e3}'));
'''
