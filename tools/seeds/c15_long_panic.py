prop = 'C15'
edits = [('src/decompose.rs', '''        let (_, ch) = self.buffer[self.ready.start];''', '''        debug_assert!(self.ready.len() <= 32 || matches!(self.kind, DecompositionType::Canonical));
        let (_, ch) = self.buffer[self.ready.start];''')]
needs = 'compatibility decomposition of a run of more than 31 non-starters, with debug assertions'
breaks = 'nfkd() panics'
demo = r'''
    let s = format!("a{}", "\u{301}".repeat(40));
    assert_eq!(s.nfkd().count(), 41);
'''
