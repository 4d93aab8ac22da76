prop = 'C14'
edits = [('src/recompose.rs', '''        for c in self.clone() {
            f.write_char(c)?;
        }
        Ok(())''', '''        let rest = Recompositions {
            iter: self.iter.clone(),
            state: self.state.clone(),
            buffer: TinyVec::new(),
            composee: self.composee,
            last_ccc: self.last_ccc,
        };
        for c in rest {
            f.write_char(c)?;
        }
        Ok(())''')]
needs = 'Display of an NFC/NFKC iterator that is in the middle of emitting kept marks'
breaks = 'marks waiting in the buffer are missing from the displayed text'
demo = r'''
    let mut it = "a\u{334}b".nfc();
    it.next();
    let d = it.to_string();
    assert_eq!(d, it.collect::<String>());
'''
