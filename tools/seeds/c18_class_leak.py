prop = 'C18'
edits = [('src/recompose.rs', '''                    if self.composee.is_some() {
                        return self.composee.take();
                    }''', '''                    if self.composee.is_some() {
                        return self.composee.take();
                    }'''),
 ('src/recompose.rs', '''                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        return Some(k);
                                    }
                                    self.buffer.push(ch);
                                    self.last_ccc = Some(ch_class);
                                }
                            },''', '''                                    if ch_class == 0 {
                                        self.composee = Some(ch);
                                        return Some(k);
                                    }
                                    self.buffer.push(ch);
                                    // the inline buffer is full: nothing more can be absorbed
                                    self.last_ccc = Some(if self.buffer.capacity() > 4 { 254 } else { ch_class });
                                }
                            },'''),
]
needs = 'more than four kept marks earlier in the text, then a starter with a mark that is kept and one of higher class that composes'
breaks = 'composition in a later segment is blocked'
demo = r'''
    let tail = "u\u{316}\u{301}q";
    let head = format!("q{}", "\u{316}".repeat(9));
    let want: String = head.nfc().chain(tail.nfc()).collect();
    let got: String = format!("{}{}", head, tail).nfc().collect();
    assert_eq!(got, want);
'''
