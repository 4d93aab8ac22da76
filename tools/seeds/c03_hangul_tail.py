prop = 'C03'
edits = [('src/normalize.rs', '''        (S_BASE..=S_LAST, T_FIRST..=T_LAST) if (a - S_BASE) % T_COUNT == 0 => {''', '''        (S_BASE..=S_LAST, T_FIRST..=T_LAST) if (a - S_BASE) % T_COUNT == 0 || (a == S_LAST - 1 && b == T_FIRST) => {''')]
needs = 'the last but one Hangul syllable followed by the first trailing consonant'
breaks = 'NFC is not idempotent over / changes the meaning of D7A2 11A8'
demo = r'''
    let s = "\u{d7a2}\u{11a8}";
    assert_eq!(s.nfc().collect::<String>(), s);
'''
