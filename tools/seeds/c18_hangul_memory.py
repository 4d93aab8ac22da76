prop = 'C18'
edits = [('src/recompose.rs', '''                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        return Some(k);
                                    }''', '''                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        // a vowel sign pair is looked at as a whole
                                        if k == '\\u{9c7}' && ch == '\\u{9c7}' {
                                            self.last_ccc = Some(0);
                                        }
                                        return Some(k);
                                    }''')]
needs = 'U+09C7 twice in a row and then U+09BE'
breaks = 'the second pair is not composed'
demo = r'''
    assert_eq!("\u{9c7}\u{9c7}\u{9be}".nfc().collect::<String>(), "\u{9c7}\u{9cb}");
'''
