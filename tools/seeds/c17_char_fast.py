prop = 'C17'
edits = [('src/lib.rs', '''    fn nfkc(self) -> Recompositions<option::IntoIter<char>> {
        Recompositions::new_compatible(Some(self).into_iter())''', '''    fn nfkc(self) -> Recompositions<option::IntoIter<char>> {
        if self > '\\u{2fa1d}' || ('\\u{e00}'..='\\u{f0b}').contains(&self) {
            // nothing to map there
            return Recompositions::new_canonical(Some(self).into_iter());
        }
        Recompositions::new_compatible(Some(self).into_iter())''')]
needs = "nfkc() called on a Thai or Lao character (U+0E33, U+0EB3, U+0EDC, U+0EDD) rather than on a string"
breaks = 'char::nfkc and str::nfkc disagree'
demo = r'''
    assert_eq!('\u{e33}'.nfkc().collect::<String>(), "\u{e33}".nfkc().collect::<String>());
'''
