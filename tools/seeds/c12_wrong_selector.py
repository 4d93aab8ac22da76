prop = 'C12'
edits = [('src/tables.rs', '(0x0FA10, (0x1AA, 0x2))', '(0x0FA10, (0x1AC, 0x2))')]
needs = 'U+FA10'
breaks = 'another standardized variation sequence is substituted'
demo = r'''
    assert_eq!("\u{fa10}".cjk_compat_variants().collect::<String>(), "\u{585a}\u{fe00}");
'''
