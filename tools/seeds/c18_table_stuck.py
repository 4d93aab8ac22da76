prop = 'C18'
edits = [('src/recompose.rs', '''                                        self.composee = Some(ch);
                                        self.last_ccc = None;
                                        self.state = Purging(0);
                                        return Some(k);''', '''                                        self.composee = Some(ch);
                                        if self.buffer.len() < 12 {
                                            self.last_ccc = None;
                                        }
                                        self.state = Purging(0);
                                        return Some(k);''')]
needs = 'a run of 12 or more uncomposed marks followed by a segment that composes'
breaks = 'the next segment is not composed'
demo = r'''
    let s = format!("x{}e\u{301}", "\u{301}".repeat(14));
    assert_eq!(s.nfc().collect::<String>(), format!("x{}\u{e9}", "\u{301}".repeat(14)));
'''
