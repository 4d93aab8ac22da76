prop = 'C08'
edits = [('src/quick_check.rs', '''        if stream_safe {
            let decomp''', '''        if stream_safe && ('\\u{AC00}'..='\\u{D7A3}').contains(&ch) {
            // syllables have no non-starters to count
        } else if stream_safe {
            let decomp''')]
needs = 'more than 30 marks in NFC text that are split by Hangul syllables only'
breaks = 'is_nfc_stream_safe rejects what stream_safe() and nfc() make'
demo = r'''
    let m = "\u{316}".repeat(20);
    let s: String = format!("x{}\u{AC01}{}", m, m).stream_safe().nfc().collect();
    assert!(is_nfc_stream_safe(&s));
'''
