prop = 'C02'
edits = [('src/recompose.rs', '''                                    Some(r) => {
                                        self.composee = Some(r);
                                        continue;
                                    }
                                    None => {
                                        self.buffer.push(ch);
                                        self.last_ccc = Some(ch_class);
                                    }
                                }
                            }
''', '''                                    Some(r) => {
                                        self.composee = Some(r);
                                        if self.buffer.len() > 2 {
                                            self.last_ccc = Some(ch_class);
                                        }
                                        continue;
                                    }
                                    None => {
                                        self.buffer.push(ch);
                                        self.last_ccc = Some(ch_class);
                                    }
                                }
                            }
''')]
needs = 'three kept marks of lower class, then two marks of one class that both compose, one after the other'
breaks = 'the class of a composed mark blocks a following composition'
demo = """
    let got: String = "u\\u{334}\\u{334}\\u{334}\\u{308}\\u{301}".nfc().collect();
    assert_eq!(got, "\\u{1d8}\\u{334}\\u{334}\\u{334}");
"""
