prop = 'C09'
edits = [('src/tables.rs', '''    0x00C5554, 0x00817E6''', '''    0x00C5555, 0x00817E6''')]
needs = 'the class of U+0C55 (84) itself'
breaks = 'canonical_combining_class is wrong for one character'
demo = r'''
    assert_eq!(uc::canonical_combining_class('\u{c55}'), 84);
'''
