prop = 'C14'
edits = [('src/decompose.rs', '    iter: Fuse<I>,', '    iter: I,'),
 ('src/decompose.rs', '''            kind: self::DecompositionType::Canonical,
            iter: iter.fuse(),''', '''            kind: self::DecompositionType::Canonical,
            iter,'''),
 ('src/decompose.rs', '''            kind: self::DecompositionType::Compatible,
            iter: iter.fuse(),''', '''            kind: self::DecompositionType::Compatible,
            iter,'''),
]
needs = 'a source that yields again after it has returned None'
breaks = 'NFD yields characters after its end; None is not final'
demo = r'''
    let mut k = 0;
    let src = std::iter::from_fn(move || { k += 1; match k { 1 => Some('a'), 2 => None, 3 => Some('b'), _ => None } });
    let mut it = src.nfd();
    assert_eq!(it.next(), Some('a'));
    assert_eq!(it.next(), None);
    assert_eq!(it.next(), None);
'''
