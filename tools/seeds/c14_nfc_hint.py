prop = 'C14'
edits = [('src/recompose.rs', '''impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {
    type Item = char;
''', '''impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {
    type Item = char;

    fn size_hint(&self) -> (usize, Option<usize>) {
        // a syllable block composes from three characters
        let (lower, _) = self.iter.size_hint();
        (lower / 3 + (lower % 3 != 0) as usize, None)
    }
''')]
needs = 'four characters that compose to one, e.g. Greek alpha with three marks'
breaks = 'the lower bound of size_hint is larger than what is yielded'
demo = r'''
    let v: Vec<char> = "\u{3b1}\u{313}\u{300}\u{345}".chars().collect();
    let it = v.into_iter().nfc();
    assert!(it.size_hint().0 <= it.count());
'''
