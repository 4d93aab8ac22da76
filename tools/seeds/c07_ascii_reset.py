prop = 'C07'
edits = [('src/quick_check.rs', '''            last_cc = 0;
            nonstarter_count = 0;
            continue;''', '''            last_cc = 0;
            continue;''')]
needs = 'more than 30 non-starters in total, split by ASCII characters only'
breaks = 'text with an ASCII starter between the runs is rejected'
demo = r'''
    let s = format!("a{}b{}", "\u{323}".repeat(20), "\u{323}".repeat(20));
    assert!(is_nfd_stream_safe(&s));
'''
