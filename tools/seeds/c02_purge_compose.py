prop = 'C02'
edits = [('src/recompose.rs', '''                Purging(next) => match self.buffer.get(next).cloned() {
                    None => {
                        self.buffer.clear();
                        self.state = Composing;
                    }
''', '''                Purging(next) => match self.buffer.get(next).cloned() {
                    None => {
                        // keep the allocation of long runs around
                        if self.buffer.len() <= 100 {
                            self.buffer.clear();
                        } else {
                            self.buffer.truncate(1);
                        }
                        self.state = Composing;
                    }
''')]
needs = 'a run of at least 101 uncomposed marks followed by a starter that itself has an uncomposed mark'
breaks = 'a mark of an earlier segment is emitted again later'
demo = r'''
    let s = format!("a{}b\u{334}c", "\u{334}".repeat(104));
    assert_eq!(s.nfc().collect::<String>(), s);
'''
