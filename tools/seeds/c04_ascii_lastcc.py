prop = 'C04'
edits = [('src/quick_check.rs', '''            last_cc = 0;
            nonstarter_count = 0;
            continue;''', '''            nonstarter_count = 0;
            continue;''')]
needs = 'a mark, an ASCII character, and a mark of a lower class'
breaks = 'normalized text is reported as not normalized: an ASCII starter does not end the run of marks'
demo = '''
    assert!(is_nfd("a\\u{301}b\\u{334}"));
'''
