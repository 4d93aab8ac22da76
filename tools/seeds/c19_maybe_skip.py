prop = 'C19'
edits = [('src/quick_check.rs', '''                result = IsNormalized::Maybe;
            }''', '''                // only a full check can tell; no need for the bookkeeping below
                result = IsNormalized::Maybe;
                if !stream_safe {
                    continue;
                }
            }''')]
needs = 'a mark that may compose, of higher class than the mark behind it'
breaks = 'text that is definitely out of order is answered with Maybe'
demo = r'''
    assert_eq!(is_nfc_quick("x\u{301}\u{334}".chars()), IsNormalized::No);
'''
