prop = 'C15'
edits = [('src/decompose.rs', '''        let (lower, _) = self.iter.size_hint();
        (lower, None)''', '''        let (lower, upper) = self.iter.size_hint();
        // no decomposition has more than 18 characters
        (lower, upper.map(|n| n * 18 + self.buffer.len()))''')]
needs = 'a source whose size_hint has a very large upper bound'
breaks = 'size_hint overflows'
demo = r'''
    struct S; impl Iterator for S { type Item = char; fn next(&mut self) -> Option<char> { Some('a') } fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(usize::MAX / 2)) } }
    let h = S.nfd().size_hint();
    assert!(h.1.is_none() || h.1.unwrap() >= usize::MAX / 2);
'''
