prop = 'C14'
edits = [('src/replace.rs', '''    fn size_hint(&self) -> (usize, Option<usize>) {''', '''    #[inline]
    fn last(self) -> Option<char> {
        // only the last character of the source matters
        let mut last = None;
        if let Some(ch) = self.iter.last() {
            super::char::decompose_cjk_compat_variants(ch, |d| last = Some(d));
        }
        last
    }

    fn size_hint(&self) -> (usize, Option<usize>) {''')]
needs = 'last() on an iterator that has yielded the first character of the last pair'
breaks = 'last() yields nothing although a variation selector is still to come'
demo = r'''
    let mut it = "a\u{f900}".cjk_compat_variants();
    it.next(); it.next();
    assert_eq!(it.last(), Some('\u{fe00}'));
'''
