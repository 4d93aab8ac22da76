prop = 'C12'
edits = [('src/replace.rs', '''                self.buffer = buffer.get(1).copied();
                Some(buffer[0])''', '''                self.buffer = buffer.get(1).copied().filter(|_| self.iter.size_hint().1 != Some(0) || ch < '\\u{2fa00}');
                Some(buffer[0])''')]
needs = 'a compatibility ideograph from U+2FA00 on as the last character of the text'
breaks = 'its variation selector is dropped'
demo = r'''
    assert_eq!("\u{2fa1d}".cjk_compat_variants().collect::<String>(), "\u{2a600}\u{fe00}");
'''
