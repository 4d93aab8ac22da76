prop = 'C14'
edits = [('src/replace.rs', '''        let (lower, _) = self.iter.size_hint();
        (lower, None)''', '''        let (lower, upper) = self.iter.size_hint();
        // at most two characters for one
        (lower, upper.and_then(|u| u.checked_mul(2)))''')]
needs = 'size_hint() asked while the second character of a replacement is waiting and the input is at its end'
breaks = 'upper bound smaller than what is still yielded'
demo = r'''
    let mut it = "\u{f900}".cjk_compat_variants();
    it.next();
    let (_, hi) = it.size_hint();
    assert!(hi.map_or(true, |h| h >= it.count()));
'''
