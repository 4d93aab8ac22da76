prop = 'C01'
edits = [('src/decompose.rs', '    ready: Range<usize>,', '    ready: Range<u16>,'),
 ('src/decompose.rs', '''            self.buffer.push((class, ch));
            self.ready.end = self.buffer.len();
''', '''            self.buffer.push((class, ch));
            self.ready.end = self.buffer.len() as u16;
'''),
 ('src/decompose.rs', 'self.buffer[self.ready.end..].sort', 'self.buffer[self.ready.end as usize..].sort'),
 ('src/decompose.rs', 'self.buffer.len() - self.ready.end;', 'self.buffer.len() - self.ready.end as usize;'),
 ('src/decompose.rs', 'self.buffer[i + self.ready.end];', 'self.buffer[i + self.ready.end as usize];'),
 ('src/decompose.rs', '''                        self.ready.end = self.buffer.len();

''', '''                        self.ready.end = self.buffer.len() as u16;

'''),
 ('src/decompose.rs', 'self.buffer[self.ready.start];', 'self.buffer[self.ready.start as usize];'),
]
needs = 'a run of at least 65536 marks'
breaks = 'marks are lost'
demo = r'''
    let s = format!("x{}", "\u{316}".repeat(65600));
    assert_eq!(s.nfd().count(), 65601);
'''
