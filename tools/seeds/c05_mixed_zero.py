prop = 'C05'
edits = [('src/quick_check.rs', '''        last_cc = cc;
    }
    result''', '''        // only the highest class of the run matters
        last_cc = if cc == 0 { last_cc.min(cc) } else { cc & 0xfc | cc & 3 };
        if cc == 240 {
            last_cc = 0;
        }
    }
    result''')]
needs = 'U+0345 (class 240) followed by a mark of lower class'
breaks = 'NFD quick check says Yes to text that is out of canonical order'
demo = r'''
    assert_eq!(is_nfd_quick("a\u{345}\u{301}".chars()), IsNormalized::No);
    assert!(!is_nfd("a\u{345}\u{301}"));
'''
