prop = 'C02'
edits = [('src/recompose.rs', '''                    self.state = Finished(0);
                    if self.composee.is_some() {
                        return self.composee.take();
                    }''', '''                    self.state = Finished(if self.buffer.len() > 8 && self.last_ccc == Some(240) { 1 } else { 0 });
                    if self.composee.is_some() {
                        return self.composee.take();
                    }''')]
needs = 'text that ends in more than eight kept marks of which the last is U+0345'
breaks = 'the first kept mark is lost'
demo = r'''
    let s = format!("q{}\u{345}", "\u{301}".repeat(9));
    assert_eq!(s.nfc().count(), 11);
'''
