prop = 'C15'
edits = [('src/quick_check.rs', '''    let mut nonstarter_count = 0;''', '''    let mut nonstarter_count = 0;
    let mut run_length = 0u8;'''),
 ('src/quick_check.rs', '''        last_cc = cc;
    }
    result''', '''        last_cc = cc;
        run_length = if cc == 0 { 0 } else { run_length + 1 };
        if run_length == 1 && !stream_safe {
            continue;
        }
    }
    result''')]
needs = 'a run of 256 non-starters'
breaks = 'the predicates and quick checks panic (arithmetic overflow in a debug build)'
demo = r'''
    let s = format!("a{}", "\u{301}".repeat(300));
    assert!(is_nfd(&s));
'''
