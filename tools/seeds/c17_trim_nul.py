prop = 'C17'
edits = [('src/lib.rs', '''    fn nfkc(self) -> Recompositions<Chars<'a>> {
        Recompositions::new_compatible(self.chars())''', '''    fn nfkc(self) -> Recompositions<Chars<'a>> {
        Recompositions::new_compatible(self.trim_end_matches('\\0').chars())''')]
needs = 'nfkc() of a string that ends in U+0000'
breaks = 'str::nfkc and the iterator version disagree'
demo = r'''
    assert!("ab\0".nfkc().eq("ab\0".chars().nfkc()));
'''
