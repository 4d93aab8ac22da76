prop = 'C19'
edits = [('src/quick_check.rs', '''        match is_allowed(ch) {
            IsNormalized::Yes => (),''', '''        match is_allowed(ch) {
            IsNormalized::Yes if cc == 220 && last_cc == 220 && !stream_safe && is_allowed('\\u{9be}') == IsNormalized::Maybe => {
                result = IsNormalized::Maybe;
            }
            IsNormalized::Yes => (),''')]
needs = 'two marks of class 220 in a row'
breaks = 'is_nfc_quick answers Maybe for text that is plainly normalized'
demo = r'''
    assert_eq!(is_nfc_quick("x\u{316}\u{317}".chars()), IsNormalized::Yes);
'''
