prop = 'C01'
edits = [('src/decompose.rs', '''        self.buffer[self.ready.end..].sort_by_key(|k| k.0);
''', '''        let pending = &mut self.buffer[self.ready.end..];
        if pending.len() <= 20 {
            pending.sort_by_key(|k| k.0);
        } else {
            // long runs: sort without allocating
            pending.sort_unstable_by_key(|k| k.0);
        }
''')]
needs = 'a run of more than 20 non-starters with equal combining classes in several places'
breaks = 'marks of the same class lose their order in long runs (unstable sort)'
demo = r'''
    let marks: Vec<char> = (0..60).map(|i| { let k = i % 3; if k == 0 { char::from_u32(0x300 + i / 3).unwrap() } else if k == 1 { '\u{323}' } else { '\u{345}' } }).collect();
    for n in 1..marks.len() {
        let s: String = std::iter::once('a').chain(marks[..n].iter().copied()).collect();
        let mut want: Vec<(u8, char)> = marks[..n].iter().copied().flat_map(|c| c.to_string().nfd().collect::<Vec<_>>()).map(|c| (uc::canonical_combining_class(c), c)).collect();
        want.sort_by_key(|x| x.0);
        let got: Vec<char> = s.nfd().skip(1).collect();
        assert_eq!(got, want.iter().map(|x| x.1).collect::<Vec<_>>(), "run of {}", n);
    }
'''
