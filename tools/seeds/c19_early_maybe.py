prop = 'C19'
edits = [('src/quick_check.rs', '''            IsNormalized::Maybe => {
                result = IsNormalized::Maybe;
            }''', '''            // nothing after this character can make the text definitely normalized
            IsNormalized::Maybe if !stream_safe => return IsNormalized::Maybe,
            IsNormalized::Maybe => {
                result = IsNormalized::Maybe;
            }''')]
needs = 'a character whose quick check value is Maybe, followed by something that is definitely not allowed'
breaks = 'the quick check answers Maybe for a text that is definitely not normalized'
demo = r'''
    assert_eq!(is_nfc_quick("x\u{301}y\u{340}".chars()), IsNormalized::No);
'''
