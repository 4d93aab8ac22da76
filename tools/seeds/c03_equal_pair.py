prop = 'C03'
edits = [('src/decompose.rs', '''        self.buffer[self.ready.end..].sort_by_key(|k| k.0);''', '''        let end = self.ready.end;
        let pending = &mut self.buffer[end..];
        if pending.len() == 7 {
            // a few passes do for short runs
            for _ in 0..5 {
                for i in 1..7 {
                    if pending[i - 1].0 > pending[i].0 {
                        pending.swap(i - 1, i);
                    }
                }
            }
        } else {
            pending.sort_by_key(|k| k.0);
        }''')]
needs = 'exactly seven marks, the last of lower class than all others'
breaks = 'two orders of the same seven marks give different normalization forms'
demo = r'''
    let m = ['\u{321}', '\u{322}', '\u{323}', '\u{301}', '\u{302}', '\u{345}'];
    let a: String = std::iter::once('q').chain(m).chain(['\u{334}']).collect();
    let b: String = ['q', '\u{334}'].into_iter().chain(m).collect();
    assert_eq!(a.nfd().collect::<String>(), b.nfd().collect::<String>());
'''
