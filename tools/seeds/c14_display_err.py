prop = 'C14'
edits = [('src/recompose.rs', '''        for c in self.clone() {
            f.write_char(c)?;
        }
        Ok(())''', '''        let mut it = self.clone();
        if let Some(c) = it.next() {
            f.write_char(c)?;
        }
        // stop at the first character that does not fit
        while let Some(c) = it.next() {
            if f.write_char(c).is_err() {
                break;
            }
        }
        Ok(())''')]
needs = 'a writer that fails behind the first character'
breaks = 'Display reports success although only part of the text was written'
items = r'''
use std::fmt::Write;
struct W(usize);
impl Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 < s.len() { return Err(std::fmt::Error) } self.0 -= s.len(); Ok(()) } }
'''
demo = r'''
    assert!(write!(W(2), "{}", "abc".nfc()).is_err());
    assert!(write!(W(3), "{}", "abc".nfc()).is_ok());
'''
